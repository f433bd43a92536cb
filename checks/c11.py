#!/usr/bin/env python3
import _path, check, qm

RULE = ('random programs of macro definitions (templates, transformers that compute, recursive, macro-defining, local, redefined, with rest '
        'parameters, shadowed by variables of every scope) and quasiquote templates (nested levels, splices, dotted tails, vectors) within '
        'core-form programs; the reference predicts every event; non-trivial: at least one event')


def body(chk):
    profs = [dict(), dict(shadow=8, closure=8, innerdef=6), dict(callcc=4, catch=4, wind=3), dict(qq=8, hof=8)]

    def make(i):
        return qm.QM(chk.rng(i), **profs[i % len(profs)]).program()

    def features(chk, p, ev, x):
        t = '\n'.join(p)
        for k in ('define-macro', ',@', '``', '#(', ' . '):
            chk.counts['forms with ' + k] += t.count(k)
    check.differential(chk, make, chk.n(15000, 120000), features=features)
    check.differential(chk, lambda i: make(i + 10 ** 7), chk.n(1500, 12000), variants=('asan',))


check.main('C11', RULE, body)
