#!/usr/bin/env python3
import _path, capi, check, expect, gen, modgen, prom, qm, settings, tmpl

RULE = ('random programs and library-call sequences run under forced collection schedules (collect at every k-th allocation, k from 1, '
        'at random phases) with freed blocks overwritten; the events have to be the ones the reference predicts, which knows no '
        'collector; non-trivial: at least one collection reclaimed memory while the program ran')


def body(chk):
    profs = [{}, dict(callcc=5, gen=4, wind=3, catch=3), dict(delay=4, macro=4, hash=5, qq=5), dict(str=8, vec=8, hash=4, closure=8),
             dict(callcc=3, gen=2, wind=2, catch=4, err=8, delay=2, macro=2, hash=2)]

    def make(i):
        r = chk.rng(i)
        if i % 3 == 2:
            return tmpl.program(r)
        if i % 18 == 4:
            return prom.PM(r, callcc=2, gen=1).program()
        if i % 18 == 13:
            return qm.QM(r).program()
        return gen.Gen(r, **profs[i % len(profs)]).program()

    def sched(j):
        r = chk.rng('s', j)
        k = r.choice([1, 2, 3, 5, 7, 11, 23, 50, 120])
        return dict(period=k, seed=r.randrange(1, 1 << 30), poison=1)

    def features(chk, p, ev, x):
        chk.counts['reclaimed'] += x.stats[5]
        chk.counts['reused'] += x.stats[6]
    check.differential(chk, make, chk.n(4000, 60000), schedules=sched, features=features, timeout=60)
    check.differential(chk, make, chk.n(600, 8000), variants=('asan',), schedules=sched, features=features, timeout=90)
    if chk.violations:
        return
    check.differential(chk, lambda i: capi.program(chk.rng('capi', i), i), chk.n(600, 8000), mode='capi', schedules=sched, features=features, timeout=60)
    if chk.violations:
        return

    def module(r, i):
        return modgen.ModProg.make(*modgen.MG(r).program())
    if expect.explore(chk, 'settings', settings.make, chk.n(300, 4000), schedules=sched, timeout=60):
        return
    expect.explore(chk, 'modules', module, chk.n(600, 8000), schedules=sched, timeout=60)
    if chk.counts['reclaimed'] < 1000:
        chk.minimum = 1 << 60      # nothing was collected: the run says nothing


check.main('C01', RULE, body)
