#!/usr/bin/env python3
import _path, time, capi, check, diff, gen, hostile, modgen, prom, qm, run, tmpl

RULE = ('programs of every generator (core forms, continuations, promises, macros, library calls, hostile calls and forms, damaged programs and '
        'texts, texts of lengths around every buffer size) in an AddressSanitizer + UndefinedBehaviorSanitizer build, most under forced collections '
        'with reclaimed blocks and block tails inaccessible, some with stack redzones; violations: a sanitizer report, or a process that dies; '
        'non-trivial: any program')


def batch(chk, tag, make, n, variant, sched=None, timeout=12, size=1500, mode='auto'):
    """Runs the programs; only what the sanitizers and the operating system report counts."""
    runner = run.build(variant)
    for lo in range(0, n, size):
        progs = check.pool_map(lambda i: make(chk.rng(tag, lo + i), lo + i), min(size, n - lo))
        cases = [run.Case(p, timeout=timeout, mode=mode, files=getattr(p, 'files', None), **(sched(lo + j) if sched else {})) for j, p in enumerate(progs)]
        bad = []
        t = time.time()
        results = run.run_cases(runner, cases)
        chk.counts[f'{tag} seconds ({variant})'] += round(time.time() - t)
        for p, c, x in zip(progs, cases, results):
            if x.skipped:
                chk.counts['not run'] += 1
                continue
            chk.saw('\n'.join(f[:300] for f in p))
            chk.counts[f'{tag} forms ({variant})'] += x.stats[0]
            chk.counts['collections'] += x.stats[3]
            chk.counts['reclaimed'] += x.stats[5]
            w = wrong(x, variant, p)
            if w == '':
                chk.inconclusive += 1
            elif w:
                bad.append((p, c, w))
        for p, c, w in sorted(bad, key=lambda b: len(''.join(b[0])))[:3]:
            p, c, w = shrink(p, c, w, runner, variant)
            chk.violation(w, c, variant=variant)
        if chk.violations:
            return True
    return False


def wrong(x, variant, p):
    w = check.sanitizer_report(x)
    if w and variant == 'redzone' and 'run_gc' in x.err:
        return ''                   # the collector reads the stack as it is, redzones included
    if w:
        return w
    if x.timed_out or x.signal == 25:      # prints without end: a circular structure
        return ''
    if not x.done and not any('(exit' in f for f in p):
        return f'{x.ended()} {x.err[-300:]}'
    return None


class Filed(list):
    """forms that use files"""
    files = None


def shrink(p, c, w, runner, variant):
    files = getattr(p, 'files', None)

    def mk(q):
        return run.Case(q, mode=c.mode, files=files, period=c.period, seed=c.seed, poison=c.poison, timeout=c.timeout)
    for _ in range(30):
        cands = [p[:i] + p[i + 1:] for i in range(len(p))] if len(p) > 1 else []
        if len(p) > 8:
            cands = [p[:len(p) // 2], p[len(p) // 2:]] + cands
        for q, x in zip(cands, run.run_cases(runner, [mk(q) for q in cands])):
            qw = None if x.skipped else wrong(x, variant, q)
            if qw:
                p, w = q, qw
                break
        else:
            break
    return p, mk(p), w


def body(chk):
    def sched(j):
        r = chk.rng('s', j)
        return dict(period=r.choice([0, 4, 9, 40, 150, 600]), seed=r.randrange(1, 1 << 30), poison=1)
    run.STACK = 64 << 20
    profs = [dict(), dict(callcc=5, gen=4, wind=3, catch=3), dict(hash=5, str=6, vec=6), dict(delay=3, macro=4, qq=5, err=8)]

    def core(r, i):
        return gen.Gen(r, **profs[i % 4]).program()

    def lib(r, i):
        return tmpl.program(r)

    def prm(r, i):
        return prom.PM(r, callcc=3, wind=2, catch=3).program()

    def mac(r, i):
        return qm.QM(r, callcc=1, err=4).program()

    def mods(r, i):
        files, forms = modgen.MG(r).program()
        p = Filed(forms)
        p.files = files
        return p

    def host(r, i):
        return capi.program(r, i)

    def h(kind):
        return lambda r, i: getattr(hostile, kind)(r)[0] + hostile.PROBE
    for tag, make, n in (('library', lib, 1800), ('core', core, 1000), ('modules', mods, 500), ('host', host, 500), ('promises', prm, 500), ('macros', mac, 600), ('calls', h('calls'), 3000),
                         ('forms', h('forms'), 3000), ('damaged', h('damaged'), 2000), ('longs', h('longs'), 1500), ('texts', h('texts'), 2500)):
        if batch(chk, tag, make, chk.n(n), 'asan', sched, mode='capi' if tag == 'host' else 'auto'):
            return
    for tag, make, n in (('calls', h('calls'), 1200), ('forms', h('forms'), 1000), ('longs', h('longs'), 1500), ('texts', h('texts'), 1000), ('library', lib, 500)):
        if batch(chk, tag, lambda r, i: make(chk.rng('redzone', tag, i), i), chk.n(n), 'redzone'):
            return
    run.STACK = 8 << 20
    batch(chk, 'deep', h('deep'), chk.n(60, 600), 'asan', timeout=40)


check.main('C03', RULE, body)
