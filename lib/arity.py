"""Calls of every built-in with every wrong number of arguments, the arguments being good ones for the right number."""
import itertools
import diff, refscm

POOL = ['2', '5', '"abc"', "'a", '#\\b', "(list 1 2 3)", "(list 1)", '(vector 1 2 3)', '(lambda l 1)', 'car', '(make-hash-table 5)', "'((a . 1))", '0', '#t', '(delay 1)',
        '(open-input-string "x y")', '(open-output-string)', '(lambda () 1)', "(string-append \"a\" \"b\")"]
SKIP = {'exit', 'quit', 'abort', 'gc', 'throw', 'open-output-file', 'open-input-file', 'call-with-output-file', 'call-with-input-file', 'with-output-to-file', 'call-with-current-continuation', 'call/cc'}


def fits(form):
    ev, m = diff.reference([form], 3000)
    return ev is not None and not any(e[0] == 'X' for e in ev)


def table():
    """name -> (number of arguments, [good arguments])"""
    out = {}
    for name, (_, p) in sorted(refscm.PRIMS.items()):
        if name in SKIP or (p.hi is not None and p.lo != p.hi):
            continue
        if p.hi is None:
            if p.lo:
                out[name] = (None, [tuple(POOL[:p.lo - 1])])
            continue
        if p.hi == 0:
            out[name] = (0, [()])
            continue
        good = []
        for a in itertools.islice(itertools.product(POOL, repeat=p.hi), 0, None, 1 if p.hi < 3 else 3):
            if fits(f'({name} {" ".join(a)})'):
                good.append(a)
                if len(good) == 3:
                    break
        out[name] = (p.hi, good or [tuple(POOL[:p.hi])])
    return out


def programs(tab, r):
    for name, (n, good) in tab.items():
        p = []
        for a in good:
            wrong = [a, a[:-1]] if n is None else [a + (x,) for x in r.sample(POOL, 3)] + [a + tuple(r.sample(POOL, 2))] + ([a[:-1]] if n else []) + ([()] if n else [])
            for w in wrong:
                call = r.choice([f'({name} {" ".join(w)})', f'(apply {name} (list {" ".join(w)}))', f'(let ((f {name})) (f {" ".join(w)}))',
                                 f'((lambda (g . l) (apply g l)) {name} {" ".join(w)})'] + ([f'(map {name} {" ".join(f"(list {x})" for x in w)})'] if w else []))
                p.append(f"(catch #t (lambda () (list 'accepted {call})) (lambda (k . more) 'refused))")
        yield p
