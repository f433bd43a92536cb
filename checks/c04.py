#!/usr/bin/env python3
import _path, gen, check

RULE = ('random typed programs (nested special forms, closures, shadowing, internal and global definitions, assignment, '
        'iteration) whose events the reference evaluator predicts; non-trivial: the run produced at least one value, output or error')


def body(chk):
    def make(i):
        r = chk.rng(i)
        prof = {} if i % 3 else dict(shadow=14, set=9, innerdef=6, letrec=5, named=6, do=6, closure=6, scope=8)
        if i % 7 == 0:
            prof = dict(prof, err=15)
        return gen.Gen(r, **prof).program()
    check.differential(chk, make, chk.n(15000, 120000))
    check.differential(chk, make, chk.n(1200, 12000), variants=('asan',))


check.main('C04', RULE, body)
