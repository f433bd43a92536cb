"""Cases whose expected events are known in advance: programs of independent parts, each with its events."""
import run, diff, check


class Prog:
    """parts: [(form, events)]; a part stands alone unless keep says how many leading parts all others need."""

    def __init__(self, parts, keep=0, files=None, mode='auto', note=''):
        self.parts, self.keep, self.files, self.mode, self.note = parts, keep, files, mode, note

    def case(self, **kw):
        forms = [p for p, _ in self.parts]
        mode = kw.pop('mode', self.mode)
        return run.Case(forms if mode in ('auto', 'forms', 'filed', 'capi') else ''.join(forms), mode=mode, files=self.files, **kw)

    def events(self):
        return [e for _, evs in self.parts for e in evs]

    def text(self):
        t = '\n'.join(p for p, _ in self.parts)
        return t + ''.join(f'\n;; {n}\n{c}' for n, c in (self.files or {}).items())

    quiet_o = False

    def cands(self):
        if len(self.parts) > self.keep + 1:
            for i in range(self.keep, len(self.parts)):
                yield self.without(i)

    def without(self, i):
        return Prog(self.parts[:i] + self.parts[i + 1:], self.keep, self.files, self.mode, self.note)


def same(exp, got):
    """None or the first difference; an expected ('?',) is any one value, none or error, ('X', None) any error."""
    exp, got = diff.merge(exp), diff.merge(got)
    for i in range(max(len(exp), len(got))):
        x = exp[i] if i < len(exp) else None
        g = got[i] if i < len(got) else None
        if x is None or g is None:
            return i, x, g
        if x[0] == '?':
            if g[0] not in 'VNX':
                return i, x, g
        elif x[0] == 'X':
            # errors of built-ins: only that there is one is specified
            if g[0] != 'X' or (x[1] is not None and not (len(x) > 2 and x[2]) and x[1] != g[1]):
                return i, x, g
        elif x != g:
            return i, x, g
    return None


def explore(chk, tag, make, n, variants=('plain',), schedules=None, timeout=20, size=1500, judge=None):
    """make(rng, i) -> Prog (or None). Every program has to show exactly its events."""
    if chk.violations:
        return True
    for lo in range(0, n, size):
        k = min(size, n - lo)
        progs = [p for p in check.pool_map(lambda i: make(chk.rng(tag, lo + i), lo + i), k) if p]
        for variant in variants:
            runner = run.build(variant)
            cases = [p.case(timeout=timeout, **(schedules(lo + j) if schedules else {})) for j, p in enumerate(progs)]
            results = run.run_cases(runner, cases)
            hung = set(check.rerun_timeouts(chk, runner, cases, results))
            bad = []
            for j, (p, c, x) in enumerate(zip(progs, cases, results)):
                if x.skipped:
                    chk.counts['not run'] += 1
                    continue
                chk.saw(p.text())
                chk.counts[tag + ' programs'] += 1
                for e in x.events:
                    chk.counts['event ' + e[0]] += 1
                chk.counts['collections'] += x.stats[3]
                w = 'does not end' if j in hung else wrong(p, x, judge)
                if w:
                    bad.append((p, c, w, j in hung))
            for p, c, w, hang in sorted(bad, key=lambda b: len(b[0].text()))[:3]:
                if not hang:
                    p, w = shrink(p, c, w, runner, judge)
                d = p.case(mode=c.mode, timeout=c.timeout, period=c.period, seed=c.seed, poison=c.poison)
                chk.violation(f'{tag}: {w}', d, expected=p.events()[:60], variant=variant)
            if bad:
                chk.counts['further violations'] += max(0, len(bad) - 3)
                return True
    return False


def wrong(p, x, judge):
    r = check.sanitizer_report(x)
    if r:
        return r
    got = diff.observed(x)
    if p.quiet_o:
        got = [e for e in got if e[0] != 'O']
    d = same(p.events(), got)
    if d:
        return f'event {d[0]}: expected {d[1]}, observed {d[2]} ({x.ended()})'
    return judge(p, x) if judge else None


def shrink(p, c, w, runner, judge):
    end = check.time.time() + 45
    for _ in range(60):
        cands = list(p.cands())
        if not cands or check.time.time() > end:
            break
        rs = run.run_cases(runner, [q.case(mode=c.mode, timeout=min(8, c.timeout), period=c.period, seed=c.seed, poison=c.poison) for q in cands])
        for q, x in zip(cands, rs):
            qw = None if x.skipped or x.timed_out else wrong(q, x, judge)
            if qw:
                p, w = q, qw
                break
        else:
            break
    return p, w
