"""Histories of read and debug options: what was set last is what the interfaces tell, whatever is allocated in between."""
import expect

READ = [('keywords', 'val'), ('case-insensitive', 'flag'), ('positions', 'flag'), ('copy', 'flag')]
DEBUG = [('warn-deprecated', 'flag'), ('show-file-name', 'val'), ('stack', 'int'), ('debug', 'flag'), ('backtrace', 'flag'), ('depth', 'int'), ('maxdepth', 'int'),
         ('frames', 'int'), ('indent', 'int'), ('width', 'int'), ('backwards', 'flag'), ('procnames', 'flag'), ('trace', 'flag'), ('breakpoints', 'flag'), ('cheap', 'flag')]
TABLES = dict(read=READ, debug=DEBUG)
START = dict(read=dict(keywords='#f', positions=True), debug={'show-file-name': '#t', 'stack': '20000', 'depth': '20', 'maxdepth': '1000', 'frames': '3', 'indent': '10', 'width': '79', 'procnames': True, 'cheap': True})

GARBAGE = ["(begin (define (churn-q n) (if (> n 0) (begin (list n (make-string 3 #\\z) (vector n)) (churn-q (- n 1))))) 0)"]


def value(r):
    """(expression, what it prints as)"""
    n = r.randrange(100)
    return r.choice([("'prefix", 'prefix'), ("'postfix", 'postfix'), ('#f', '#f'), ('#t', '#t'), (f'(list {n} "s{n}" (vector {n} #\\a))', f'({n} "s{n}" #({n} #\\a))'), (f'(string-append "k" "{n}")', f'"k{n}"'),
                     (f'(list->vector (list (list {n} {n}) (make-string 3 #\\q)))', f'#(({n} {n}) "qqq")'), (f'(string->symbol "sym-{n}")', f'sym-{n}'), (f'(* {n} 1000)', str(n * 1000)),
                     (f"(let ((t (make-vector 3 (list {n})))) (list t (string #\\a #\\{n % 10})))", f'(#(({n}) ({n}) ({n})) "a{n % 10}")')])


def show(f, st):
    out = []
    for n, k in TABLES[f]:
        if k == 'flag':
            if st.get(n):
                out.append(n)
        else:
            out += [n, st[n]]
    return '(' + ' '.join(out) + ')'


def settle(st):
    if st.get('copy'):
        st['positions'] = True


def make(r, i):
    st = {f: dict(v) for f, v in START.items()}
    parts = [(g, [('V', '0')]) for g in GARBAGE]
    for _ in range(r.randrange(6, 25)):
        f = r.choice(['read', 'read', 'debug'])
        s = st[f]
        flags = [n for n, k in TABLES[f] if k == 'flag']
        c = r.random()
        if c < .2:
            parts.append((f'(begin (churn-q {r.choice([5, 40, 200])}) 0)', [('V', '0')]))
            continue
        if c < .35:
            e = f'({f}-options-interface)'
        elif c < .6:
            n, k = r.choice([x for x in TABLES[f] if x[1] != 'flag'])
            x, v = value(r) if k == 'val' else (lambda q: (q, q))(str(r.randrange(100000)))
            e = f'({f}-set! {n} {x})'
            s[n] = v
        elif c < .75:
            ns = r.sample(flags, r.randrange(1, 3))
            e = f"({f}-enable {' '.join(chr(39) + n for n in ns)})"
            for n in ns:
                s[n] = True
        elif c < .9:
            ns = r.sample(flags, r.randrange(1, 3))
            e = f"({f}-disable {' '.join(chr(39) + n for n in ns)})"
            for n in ns:
                s[n] = False
        elif c < .95:
            ns = r.sample(flags, r.randrange(1, 3))
            e = f"({f}-options-interface (list {' '.join(chr(39) + n for n in ns)}))"
            for n in flags:
                s[n] = n in ns
        else:
            w = r.choice([f"({f}-options-interface '(no-such-option))", f"({f}-enable 'no-such-option)"])
            parts.append((f"(catch #t (lambda () {w}) (lambda (k . a) 'unknown))", [('V', 'unknown')]))
            continue
        if f == 'read':
            settle(s)
        if r.random() < .15:
            e = f'(let ((v {e})) (churn-q 30) v)'
        parts.append((e, [('V', show(f, s))]))
    parts += [(f'({f}-options-interface)', [('V', show(f, st[f]))]) for f in st]
    return Sequence(parts, keep=1, mode='forms')


class Sequence(expect.Prog):
    def cands(self):
        for i in range(self.keep + 1, len(self.parts)):
            yield Sequence(self.parts[:i], self.keep, self.files, self.mode)
