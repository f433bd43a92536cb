#!/usr/bin/env python3
import _path, autoload, binder, check, expect, modgen, modops

RULE = ('random sets of module files (exports by define-public, export, re-export and #:export, private state, colliding names, macros, uses in the header and '
        'the body, errors while loading; modules loaded when one of their names is asked for; names supplied by procedures; modules made, filled, used and asked by the program itself) and programs that use them in random order; a reference with its own module system predicts every value; non-trivial: every program')


def body(chk):
    rejected = [0, 0]

    def make(r, i):
        files, forms = modgen.MG(r).program()
        p = modgen.ModProg.make(files, forms)
        if p:
            t = p.text()
            for k in ('use-modules', '#:use-module', '(export', '(re-export', '#:export', 'define-public', 'module-ref', 'define-macro', '(set! '):
                chk.counts['occurrences of ' + k] += t.count(k)
        else:
            chk.counts['outside_model'] += 1
        return p

    def sched(j):
        r = chk.rng('s', j)
        return {} if j % 3 else dict(period=r.choice([1, 2, 3, 7, 20]), seed=r.randrange(1, 1 << 30), poison=1)
    if expect.explore(chk, 'suppliers', binder.make, chk.n(1500, 30000), schedules=sched, timeout=30):
        return
    if expect.explore(chk, 'loaded when asked for', autoload.make, chk.n(1500, 30000), schedules=sched, timeout=30):
        return
    if expect.explore(chk, 'module operations', modops.make, chk.n(1500, 30000), schedules=sched, timeout=30):
        return
    if expect.explore(chk, 'modules', make, chk.n(5000, 80000), schedules=sched, timeout=30):
        return
    expect.explore(chk, 'modules asan', make, chk.n(500, 8000), variants=('asan',), schedules=sched, timeout=60)


check.main('C24', RULE, body)
