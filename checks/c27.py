#!/usr/bin/env python3
import _path, check, reflect

RULE = ('random programs that evaluate quoted, computed and shadowed forms, expand macro calls step by step and completely, ask what is defined before and '
        'after definitions of every kind, make symbols, ask procedures for their names and work on variable objects, within macro and core-form programs; '
        'the reference predicts every event; non-trivial: at least one event')


def body(chk):
    profs = [dict(), dict(shadow=8, closure=8), dict(callcc=4, catch=4, wind=3), dict(err=12)]

    def make(i):
        return reflect.RM(chk.rng(i), **profs[i % len(profs)]).program()

    def features(chk, p, ev, x):
        t = '\n'.join(p)
        for k in ('eval', 'macroexpand', 'macroexpand-1', 'defined?', 'gensym', 'procedure-name', 'variable-set!'):
            chk.counts['calls of ' + k] += t.count('(' + k + ' ') + t.count('(' + k + ')')

    def sched(j):
        r = chk.rng('s', j)
        return dict(period=r.choice([1, 2, 3, 7, 20]), seed=r.randrange(1, 1 << 30), poison=1)
    check.differential(chk, make, chk.n(5000, 60000), features=features)
    check.differential(chk, lambda i: make(i + 2 * 10 ** 7), chk.n(800, 10000), features=features, schedules=sched, timeout=60)
    check.differential(chk, lambda i: make(i + 10 ** 7), chk.n(500, 6000), variants=('asan',))


check.main('C27', RULE, body)
