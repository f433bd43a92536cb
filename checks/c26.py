#!/usr/bin/env python3
import _path, capi, check, expect, modops

RULE = ('random programs whose calls go through procedures a host defined with the C API (calling Scheme procedures from C, C loops over callbacks, C catches '
        'and throws, C re-entering evaluation, C variables, foreign objects, conversions of strings, symbols, numbers and characters, modules made, filled and used by the host); the reference treats each as the procedure of the language it stands for; '
        'reruns under forced collections and in ASan/UBSan; non-trivial: the run produced a value, output or error')


def body(chk):
    def make(tag):
        return lambda i: capi.program(chk.rng(tag, i), i)

    def sched(i):
        r = chk.rng('schedule', i)
        return dict(period=r.choice([1, 1, 2, 3, 7, 20, 60]), seed=r.randrange(1 << 30), poison=1)
    if expect.explore(chk, 'modules by the host', lambda r, i: modops.make(r, 2 * i), chk.n(800, 10000), schedules=lambda j: sched(j) if j % 3 == 0 else {}, timeout=30):
        return
    check.differential(chk, make('plain'), chk.n(5000, 80000), mode='capi')
    check.differential(chk, make('gc'), chk.n(1500, 20000), mode='capi', schedules=sched, timeout=60)
    check.differential(chk, make('asan'), chk.n(300, 6000), mode='capi', variants=('asan',), timeout=60)


check.main('C26', RULE, body)
