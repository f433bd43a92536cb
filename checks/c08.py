#!/usr/bin/env python3
import _path, gen, check

RULE = ('random programs with nested catches, throws with and without arguments, built-in errors, handlers that throw again; the '
        'reference evaluator predicts which handler runs with what; non-trivial: the run produced at least one event')


def body(chk):
    def make(i):
        r = chk.rng(i)
        prof = [dict(catch=10), dict(catch=8, err=25), dict(catch=7, wind=3, callcc=3, err=10), dict(catch=10, callcc=7, gen=2)][i % 4]
        return gen.Gen(r, **prof).program()
    check.differential(chk, make, chk.n(15000, 120000))
    check.differential(chk, make, chk.n(1200, 12000), variants=('asan',))


check.main('C08', RULE, body)
