#!/usr/bin/env python3
import _path, check, gen, diff, expect, entry, run, syntax

RULE = ('random programs (definitions, assignments, output, errors, throws, macros) whose forms enter one process through a random mixture of ways '
        '(embedding calls on texts and files, eval of quoted and of read data, load, load inside catch), and whole programs as scripts, as tests and typed '
        'at the REPL of the command line tool; each way has to show the effects, values, errors and exit code the reference predicts')


def program(r, i):
    prof = dict(err=10, callcc=0, wind=1) if i % 2 else dict(err=4)
    g = gen.Gen(r, **prof)
    forms = g.program(r.randrange(4, 12))
    if r.random() < 0.3:
        forms.insert(r.randrange(len(forms)), r.choice(["(throw 'stop 1 2)", '(car (quote ()))', '(undefined-name 1)', '(vector-ref (vector 1) 5)', '(display "shown")',
                                                        '(write "a\\nb")', '(newline)', "'(quote x)", '#\\a', '"two\\nlines"', '(if #f #f)', '(begin (display 1) (car 5))']))
    if r.random() < 0.15:
        forms.insert(r.randrange(1, len(forms) + 1), r.choice(['(exit)', '(exit 0)', '(exit 7)', '(begin (display "bye") (exit 3))', '(exit 255)', '(exit 256)',
                                                               "(catch #t (lambda () (exit 9)) (lambda (k . a) 'no))", '(for-each exit (list 4 5))']))
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        forms.insert(r.randrange(len(forms) + 1), literal(r))
    return forms


def literal(r):
    """A form with any datum in it, over several lines when it is long."""
    g = syntax.G(r, allstr=False)
    sp = syntax.Speller(r, r.random() * .3, nul=False)
    x = g.special() if r.random() < .3 else g.datum()
    return r.choice(['(quote {})', "'{}", "(begin '{})", "(car (list '{} 1))"]).format(sp.spell(x))


def inside(chk, n, size=1500):
    """one process, a mixture of entries"""
    for lo in range(0, n, size):
        def make(i, lo=lo):
            r = chk.rng('mix', lo + i)
            forms = program(r, lo + i)
            return entry.mixed(r, forms)
        progs = [p for p in check.pool_map(make, min(size, n - lo)) if p]
        if len(progs) < min(size, n - lo) // 2:
            raise check.HarnessError('the reference rejects most programs')
        runner = run.build('plain')
        cases = [run.Case(u, mode='mix', files=f) for u, f, _, _ in progs]
        results = run.run_cases(runner, cases)
        hung = set(check.rerun_timeouts(chk, runner, cases, results))
        for j, ((u, f, ev, kinds), c, x) in enumerate(zip(progs, cases, results)):
            if x.skipped:
                continue
            chk.saw(c.text())
            for k in kinds:
                chk.counts['entered by ' + k] += 1
            d = expect.same(ev, diff.observed(x))
            if d or j in hung:
                chk.violation('does not end' if j in hung else f'event {d[0]}: expected {d[1]}, observed {d[2]} ({x.ended()})', c, expected=ev, got=diff.observed(x))
        if chk.violations:
            return


def command_line(chk, n, tool):
    def make(i):
        r = chk.rng('cli', i)
        forms = [f for f in program(r, i)]
        outs = entry.outcomes(forms)
        return outs and (i, forms, outs)
    jobs, what = [], []
    for i, forms, outs in [p for p in check.pool_map(make, n) if p]:
        r = chk.rng('way', i)
        forms = forms[:len(outs)] + (forms[len(outs):] if outs[-1].end[0] == 'E' else [])
        way = r.choice(['repl', 'repl', 'script', '-s', '--test', 'broken'])
        if way == 'repl':
            texts = [entry.layout(r, f, r.choice([.06, .06, .3])) for f in forms]
            if max(len(l) for t in texts for l in t.split('\n')) > 4000:
                continue
            jobs.append(([], '\n'.join(texts) + '\n', {}))
            exp = entry.repl_expected(outs, texts)
        else:
            text = r.choice(['\n', '\n\n', ' ']).join(entry.layout(r, f) for f in forms) + r.choice(['', '\n', '\n; the end', '\n; the end\n'])
            exp = entry.script_expected(outs)
            if way == 'broken':
                text = r.choice(['(', ')', '(a . b c)', '#(1 2', '(quote']) + ' ' + text if r.random() < 0.5 else text + '\n' + r.choice(['(', ')', '"abc', "(car '(1)", '#(1', '(1 . 2 3)'])
                exp = None
            jobs.append((([way] if way[0] == '-' else []) + ['p.scm'], None, {'p.scm': text}))
        what.append((way, exp))
    for (way, exp), job, (rc, so, se) in zip(what, jobs, entry.cli(tool, jobs)):
        text = job[1] or job[2]['p.scm']
        chk.saw(way + '\n' + text)
        chk.counts['command line: ' + way] += 1
        if rc is None:
            chk.inconclusive += 1
            continue
        if exp is None:
            if rc != 1 or so:
                chk.violation(f'a file with a syntax error: exit code {rc}, stdout {so[:300]!r}', extra=dict(args=job[0], stdin=job[1], files=job[2]))
        elif rc != exp[1] or entry.clean(so) != diff.norm(exp[0]):
            chk.violation(f'{way}: exit code {rc}, expected {exp[1]}; stdout differs: {first(diff.norm(exp[0]), entry.clean(so))}',
                          expected=exp[0], got=so, extra=dict(args=job[0], stdin=job[1], files=job[2]))


def first(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return f'at {i}: expected {a[max(0, i - 30):i + 60]!r}, observed {b[max(0, i - 30):i + 60]!r}' if a != b else 'no'


def body(chk):
    inside(chk, chk.n(3000, 40000))
    if not chk.violations:
        command_line(chk, chk.n(2500, 30000), run.tool())


check.main('C25', RULE, body)
