#!/usr/bin/env python3
import _path, check, garbage, run

RULE = ('random programs that loop over bodies making garbage of every kind (nested structures, cycles, closures, tables, promises, strings of all sizes, ports, errors, '
        'escapes, macros, loaded files) and keep a bounded part of it; the same program is run 1, 4 and, when it grew, 16 times as long: peak memory of the process and '
        'live bytes after the last collection must not keep growing; non-trivial: a program that collected at least 5 times')


def grew(a, b):
    """kB of the process, bytes live"""
    return b.stats[9] > a.stats[9] * 1.25 + 5000 or b.stats[7] > a.stats[7] * 1.3 + 1_000_000


def case(p, n):
    setup, loop = p
    return run.Case(setup + [loop(n)], mode='forms', timeout=100, files=garbage.FILES)


def ok(x):
    return x.done and not x.skipped and not any(e[0] in 'XP' for e in x.events)


def body(chk):
    runner = run.build('plain')
    total, size = chk.n(300, 3000), 150
    want = chk.n(6 << 20, 24 << 20)
    for lo in range(0, total, size):
        progs = [garbage.program(chk.rng(lo + i)) for i in range(min(size, total - lo))]
        first = run.run_cases(runner, [case(p, 200) for p in progs])
        todo = []
        for p, x in zip(progs, first):
            if not ok(x):
                chk.counts['programs not valid'] += 1
                e = [e for e in x.events if e[0] == 'X']
                chk.counts['not valid: ' + (e[0][1] if e else x.ended())] += 1
                continue
            per = max(16, x.stats[2] / 200)
            todo.append((p, max(300, min(60000, int(want / per)))))
        a = run.run_cases(runner, [case(p, n) for p, n in todo])
        b = run.run_cases(runner, [case(p, 4 * n) for p, n in todo])
        again = []
        for (p, n), x, y in zip(todo, a, b):
            if not ok(x) or not ok(y):
                if x.timed_out or y.timed_out or x.skipped or y.skipped:
                    chk.inconclusive += 1
                else:
                    again.append((p, n, x))
                continue
            chk.saw(p[1](n), nontrivial=y.stats[3] >= 5)
            chk.counts['collections'] += x.stats[3] + y.stats[3]
            chk.counts['MB allocated'] += (x.stats[2] + y.stats[2]) >> 20
            if grew(x, y):
                again.append((p, n, y))
        for (p, n, y), z in zip(again, run.run_cases(runner, [case(p, 16 * n) for p, n, _ in again])):
            chk.counts['programs run 16 times as long'] += 1
            if z.timed_out:
                chk.inconclusive += 1
            elif not ok(z):
                chk.violation(f'the longer loop fails: {z.ended()} {[e for e in z.events if e[0] in "XP"][:1]} ({z.stats[9] >> 10} MB)', case(p, 16 * n))
            elif grew(y, z):
                chk.violation(f'memory grows with the length of the loop: peak {y.stats[9] >> 10} MB and {y.stats[7]} bytes live after {4 * n} rounds, '
                              f'{z.stats[9] >> 10} MB and {z.stats[7]} after {16 * n}', case(p, 16 * n))
        if chk.violations:
            return


check.main('C02', RULE, body)
