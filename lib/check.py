"""What every check shares: seed and tier, evidence, known findings, verdicts, the differential driver."""
import collections, hashlib, json, multiprocessing as mp, os, random, re, sys, time
import run, diff
from run import VERIF, HarnessError, InitFailure

KNOWN = os.path.join(VERIF, 'known-findings.txt')
MAX_REPORT = 4


def known_findings(prop):
    """Entries 'known: property=<id> <what> ::: <json case>' of this property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) (.*?) ::: (\{.*\})\s*$', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), json.loads(m.group(3))))
    return out


class Check:
    def __init__(self, prop, rule, level='exploration'):
        self.prop, self.rule, self.level = prop, rule, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = collections.Counter()
        self.violations = []
        self.inconclusive = 0
        self.minimum = 20

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 12)

    def rng(self, *tag):
        return random.Random(f'{self.prop}/{self.seed}/' + '/'.join(map(str, tag)))

    # ---- what was observed
    def saw(self, text, nontrivial=True, evals=1):
        self.evals += evals
        if nontrivial:
            h = hashlib.blake2b(text.encode('latin-1', 'replace'), digest_size=8).digest()
            self.distinct.add(h)
        if len(self.samples) < 3 or (len(self.samples) < 6 and self.evals % 97 == 0):
            self.samples.append(text[:600])

    def violation(self, what, case=None, expected=None, got=None, variant='plain', extra=None):
        """One violated execution, with what replays it."""
        if len(self.violations) >= 40:
            self.counts['violations_beyond_limit'] += 1
            return
        rec = dict(property=self.prop, what=what, variant=variant, seed=self.seed)
        if case is not None:
            rec.update(mode=case.mode, payload=case.payload.decode('latin-1'), period=case.period,
                       gcseed=case.seed, poison=int(case.poison), timeout=case.timeout)
        if expected is not None:
            rec['expected'] = expected
        if got is not None:
            rec['got'] = got
        if extra:
            rec['extra'] = extra
        self.violations.append(rec)

    # ---- the end
    def finish(self, **coverage):
        self.known()
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples, observed=dict(self.counts), inconclusive=self.inconclusive)
        cov.update(coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:MAX_REPORT]):
                p = os.path.join(d, f'{self.prop}-{self.seed}-{i}.json')
                with open(p, 'w') as f:
                    json.dump(v, f, indent=1)
                print(f'VIOLATION property={self.prop} replay={p}')
                print('  ' + v['what'].replace('\n', '\n  ')[:1500])
                if 'payload' in v:
                    print('  ' + v['payload'].replace('\x1e', '\n')[:1500].replace('\n', '\n  '))
                for k in ('expected', 'got'):
                    if k in v:
                        print(f'  {k}: {str(v[k])[:800]}')
            if len(self.violations) > MAX_REPORT:
                print(f'  ... and {len(self.violations) - MAX_REPORT} more')
            sys.exit(1)
        if len(self.distinct) < self.minimum:
            print(f'{self.prop}: observed too little ({len(self.distinct)} distinct cases)')
            sys.exit(2)
        if self.inconclusive > max(5, self.evals // 20):
            print(f'{self.prop}: too many inconclusive executions ({self.inconclusive})')
            sys.exit(2)
        print(f'{self.prop}: held on {self.evals} executions, {len(self.distinct)} distinct; '
              f'{self.inconclusive} inconclusive; {ev["wall_s"]} s')
        sys.exit(0)

    def known(self):
        ks = known_findings(self.prop)
        if not ks:
            return
        r = run.build('plain')
        for what, c in ks:
            case = run.Case(c['forms'], mode=c.get('mode', 'forms'), timeout=c.get('timeout', 20))
            x = run.run_cases(r, [case])[0]
            got = diff.observed(x)
            exp = [tuple(e) for e in c['expected']]
            if not match(exp, got):
                print(f'KNOWN-FINDING: property={self.prop} {what}')


def match(exp, got):
    exp, got = diff.merge(exp), diff.merge(got)
    if len(exp) != len(got):
        return False
    for e, g in zip(exp, got):
        if e[0] != g[0] or (e[0] != 'X' and tuple(e[1:]) != tuple(g[1:])):
            return False
        if e[0] == 'X' and len(e) > 1 and e[1] and e[1] != g[1]:
            return False
    return True


def main(prop, rule, body, level='exploration'):
    """Runs body(chk) and turns what it raises into a verdict."""
    chk = Check(prop, rule, level)
    try:
        body(chk)
    except InitFailure as e:
        chk.violation(f'the interpreter does not start: {e}')
    except HarnessError as e:
        print(f'{prop}: harness error: {e}')
        sys.exit(3)
    chk.finish()


SAN = re.compile(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|AddressSanitizer:DEADLYSIGNAL)')


def sanitizer_report(x):
    """The first sanitizer report in a run's stderr, with the frames that follow, or None."""
    if 'runtime error: ' not in x.err and 'AddressSanitizer' not in x.err:
        return None
    m = SAN.search(x.err)
    if not m:
        return None
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', x.err[m.start():m.start() + 4000])
    return m.group(1)[:200] + ' | ' + ' < '.join(frames[:6])


def rerun_timeouts(chk, runner, cases, results):
    """A run that timed out is run once more, alone and longer; one that still does is returned as hung, and the
    other runs that timed out are left out, like those the runner then gave up."""
    hung = []
    for i, x in enumerate(results):
        if not x.timed_out:
            continue
        if hung:
            x.skipped = True
            continue
        c = cases[i]
        t, c.timeout = c.timeout, c.timeout * 3
        y = run.run_cases(runner, [c], jobs=1)[0]
        c.timeout = t
        results[i] = y
        if y.timed_out:
            hung.append(i)
        else:
            chk.counts['slow'] += 1
    return hung


def _ref(args):
    f, i = args
    sys.setrecursionlimit(6000)
    return f(i)


def pool_map(f, n, chunk=25):
    """[f(i) for i in range(n)], in parallel; f is a module-level function (or a closure: fork)."""
    global _F
    _F = f
    with mp.get_context('fork').Pool(8, initializer=sys.setrecursionlimit, initargs=(6000,)) as P:
        return P.map(_call, range(n), chunksize=chunk)


def _call(i):
    return _F(i)


def differential(chk, make, n, variants=('plain',), mode='auto', timeout=20, schedules=None,
                 features=None, max_steps=60000, batch=600):
    """make(i) -> list of forms. Expected events come from the reference; every program the reference
    models is run, and what is observed at the boundary has to be the same. Stops at the first batch
    with a violation."""
    if chk.violations:
        return 0

    def one(i):
        p = make(i)
        ev, m = diff.reference(p, max_steps)
        return p, ev
    total = 0
    lo, size = 0, batch
    while lo < n:
        k = min(size, n - lo)
        progs = pool_map(lambda i, lo=lo: one(lo + i), k)
        ok = [(p, e) for p, e in progs if e is not None]
        chk.counts['outside_model'] += len(progs) - len(ok)
        if len(ok) < len(progs) // 2:
            raise HarnessError('the reference rejects most programs')
        total += len(ok)
        for variant in variants:
            if compare_batch(chk, ok, variant, mode, timeout, schedules, features, max_steps, lo):
                return total
        lo += k
        size *= 3
    return total


def compare_batch(chk, ok, variant, mode, timeout, schedules, features, max_steps, lo=0):
    bad = []
    runner = run.build(variant)
    cases = []
    for j, (p, _) in enumerate(ok):
        sch = schedules(lo + j) if schedules else {}
        cases.append(run.Case(p, mode=mode, timeout=timeout, **sch))
    results = run.run_cases(runner, cases)
    hung = set(rerun_timeouts(chk, runner, cases, results))
    for j, ((p, ev), c, x) in enumerate(zip(ok, cases, results)):
        if x.skipped:
            chk.counts['not run'] += 1
            continue
        for e in x.events:
            chk.counts['event ' + e[0]] += 1
        chk.counts['collections'] += x.stats[3]
        chk.saw('\n'.join(p), nontrivial=sum(e[0] in 'OVX' for e in x.events) > 0)
        if features:
            features(chk, p, ev, x)
        d = diff.same(ev, diff.observed(x))
        rep = sanitizer_report(x) if variant != 'plain' else None
        if d or rep or j in hung:
            bad.append((p, c, variant, d, rep, j in hung, x))
    for p, c, variant, d, rep, hang, x in sorted(bad, key=lambda b: len(''.join(b[0])))[:3]:
        if not hang:
            p, c = shrink(p, c, variant, max_steps)
        x = x if hang else run.run_cases(run.build(variant), [c])[0]
        ev = diff.reference(p, max_steps)[0]
        d = diff.same(ev, diff.observed(x)) if ev is not None else d
        rep = sanitizer_report(x) or rep
        what = 'does not end' if hang else (rep or (f'event {d[0]}: expected {d[1]}, observed {d[2]} ({x.ended()})' if d else 'not reproduced'))
        chk.violation(what, c, expected=ev, got=diff.observed(x), variant=variant)
    for _ in bad[3:]:
        chk.counts['further_violations'] += 1
    return bool(bad)


def shrink(p, c, variant, max_steps=60000, rounds=40):
    """Fewer forms, same kind of disagreement."""
    runner = run.build(variant)

    def mk(q):
        return run.Case(q, mode=c.mode, period=c.period, seed=c.seed, poison=c.poison, timeout=min(c.timeout, 8))

    def errs(ev):
        return sum(y[0] == 'X' for y in ev)
    base = diff.reference(p, max_steps)[0]
    limit = errs(base) if base else 0
    end = time.time() + 45
    for _ in range(rounds):
        if time.time() > end:
            break
        cands = [p[:i] + p[i + 1:] for i in range(len(p))] if len(p) > 1 else []
        if len(p) > 8:
            h = len(p) // 2
            cands = [p[:h], p[h:]] + cands
        keep = []
        for q in cands:
            ev = diff.reference(q, max_steps)[0]
            if ev is not None and errs(ev) <= limit:
                keep.append((q, ev))
        if not keep:
            break
        rs = run.run_cases(runner, [mk(q) for q, _ in keep])
        for (q, ev), x in zip(keep, rs):
            if not (x.timed_out or x.skipped) and (diff.same(ev, diff.observed(x)) or sanitizer_report(x)):
                p = q
                break
        else:
            break
    return p, mk(p)
