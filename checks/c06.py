#!/usr/bin/env python3
import _path, gen, check

RULE = ('random programs that capture continuations for escape, re-entry, generators and loops, nested in other control forms; '
        'the reference evaluator (CPS) predicts every event; non-trivial: the run produced at least one event')


def body(chk):
    def make(i):
        r = chk.rng(i)
        prof = dict(callcc=8, gen=5) if i % 2 else dict(callcc=6, gen=4, wind=3, catch=2)
        return gen.Gen(r, **prof).program()
    check.differential(chk, make, chk.n(15000, 120000))
    check.differential(chk, make, chk.n(1200, 12000), variants=('asan',))


check.main('C06', RULE, body)
