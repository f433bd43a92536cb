#!/usr/bin/env python3
import re
import _path, check, diff, locs, run

RULE = ('random programs with one failing call at a known place (in any nesting of forms, procedures, files and macro arguments, in random layouts, its operands '
        'leaving extents, recovering from other errors and loading other files before it fails); the error message that a catch around it gets has to begin with that place')
PLACE = re.compile(r'"([^":]*):(\d+):(\d+): ')


def body(chk):
    def explore(tag, n, variant='plain', sched=None):
        size = 1200
        for lo in range(0, n, size):
            progs = check.pool_map(lambda i: locs.program(chk.rng(tag, lo + i)), min(size, n - lo))
            runner = run.build(variant)
            cases = [run.Case(['f(load "p.scm")'] + [f'fr{i}' for i in range(len(want))], mode='mix', files=files, timeout=60, **(sched(lo + j) if sched else {}))
                     for j, (files, want) in enumerate(progs)]
            results = run.run_cases(runner, cases)
            hung = set(check.rerun_timeouts(chk, runner, cases, results))
            for j, ((files, want), c, x) in enumerate(zip(progs, cases, results)):
                if x.skipped:
                    continue
                chk.saw(files['p.scm'][len(locs.PRELUDE):] + files['q.scm'])
                got = [e for e in diff.observed(x) if e[0] != 'O']
                exp = [('N',)] + [('V', f'"{f}:{l}:{k}: ..."' if not end else f'"{f}:{l}:{k} to {end[1]}:{end[2]}: ..."') for (f, l, k), end in want]
                bad = 'does not end' if j in hung else None
                if not bad and (len(got) != len(exp) or got[0] != exp[0]):
                    bad = f'{len(got)} results ({x.ended()}), the first {got[:1]}'
                for i, ((f, l, k), end) in enumerate(want):
                    if bad:
                        break
                    e = got[i + 1]
                    m = PLACE.match(e[1]) if e[0] == 'V' else None
                    at = m and (m.group(1), int(m.group(2)), int(m.group(3)))
                    ok = at and at[0] == f and ((l, k) <= at[1:] < end[1:] if end else at[1:] == (l, k))
                    chk.counts['places within a macro call' if end else 'places exactly'] += 1
                    if not ok:
                        bad = f'result {i}: the failing call is at {exp[i + 1][1]}, observed {e}'
                s = check.sanitizer_report(x)
                if bad or s:
                    chk.violation(s or bad, c, expected=exp, got=got, variant=variant)
            if chk.violations:
                return

    def sched(j):
        r = chk.rng('s', j)
        return dict(period=r.choice([1, 2, 3, 7, 20]), seed=r.randrange(1, 1 << 30), poison=1)
    explore('plain', chk.n(2500, 40000))
    if not chk.violations:
        explore('gc', chk.n(400, 6000), sched=sched)
    if not chk.violations:
        explore('asan', chk.n(300, 4000), variant='asan')


check.main('C28', RULE, body)
