#!/usr/bin/env python3
import _path, check, prom

RULE = ('random programs around delay and force: promises shared through structures and closures, streams, chains, bodies that force their own '
        'promise, raise, are left or entered again through continuations; the reference predicts every event (bodies write to the output '
        'when they run, so how often and when they run is observed), also under forced collection; non-trivial: at least one event')


def body(chk):
    profs = [dict(), dict(callcc=4, gen=2, wind=3), dict(catch=5, err=8), dict(closure=6, shadow=6, innerdef=4)]

    def make(i):
        return prom.PM(chk.rng(i), **profs[i % len(profs)]).program()

    def sched(j):
        r = chk.rng('s', j)
        if j % 3:
            return {}
        return dict(period=r.choice([1, 2, 3, 7, 20]), seed=r.randrange(1, 1 << 30), poison=1)

    def features(chk, p, ev, x):
        t = '\n'.join(p)
        for k in ('delay', 'force', 'call/cc', 'catch'):
            chk.counts['occurrences of ' + k] += t.count('(' + k)
        chk.counts['reclaimed'] += x.stats[5]
    check.differential(chk, make, chk.n(15000, 120000), features=features, schedules=sched, timeout=60)
    check.differential(chk, lambda i: make(i + 10 ** 7), chk.n(1500, 12000), variants=('asan',), features=features, schedules=sched, timeout=90)


check.main('C12', RULE, body)
