#!/usr/bin/env python3
import _path, gen, check

RULE = ('random programs nesting dynamic-wind with escapes, re-entries and throws; the trace of guard outputs is compared with '
        'the one the reference evaluator predicts; non-trivial: the run produced at least one event')


def body(chk):
    def make(i):
        r = chk.rng(i)
        prof = [dict(wind=9, callcc=5, gen=3), dict(wind=9, catch=5), dict(wind=6, callcc=4, catch=4, gen=3)][i % 3]
        return gen.Gen(r, **prof).program()
    check.differential(chk, make, chk.n(15000, 120000))
    check.differential(chk, make, chk.n(1200, 12000), variants=('asan',))


check.main('C07', RULE, body)
