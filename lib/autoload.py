"""Modules that are loaded when one of their names is first asked for (#:autoload)."""
import binder

POOL = ['a', 'a1', 'a12', 'b', 'ba1', 'a2', 'a-1']       # some begin others


class Mod:
    def __init__(self, name):
        self.name, self.own, self.uses, self.specs = name, {}, [], []
        self.public = None          # exported names, None: there is no interface
        self.loaded, self.fails, self.file = True, False, False


class World:
    def __init__(self):
        self.mods, self.log = {}, []

    def iface(self, m):
        return self.mods[m]

    def visible(self, m, n):        # in the interface of m
        m = self.mods[m]
        if m.public is not None and n not in m.public:
            return None
        return m.own.get(n)

    def load(self, m):
        m = self.mods[m]
        if m.loaded:
            return
        m.loaded = True
        for x in m.body:
            if x[0] == 'log':
                self.log.insert(0, m.name)
            elif x[0] == 'def':
                m.own[x[1]] = x[2]
            elif x[0] == 'fail':
                raise Fail

    def search(self, m, n):
        if n in m.own:
            return m.own[n]
        for u in m.uses:
            v = self.visible(u, n)
            if v is not None:
                return v
        for s in m.specs:
            if n in s[1]:
                m.specs = [x for x in m.specs if x is not s]
                self.load(s[0])
                m.uses.insert(0, s[0])
                return self.search(m, n)
        return None

    def value(self, cur, n, via=None):
        """('val', text) or ('fun', module, name, refs) or None when unbound"""
        if via is not None:
            v = self.search(self.mods[via], n)
            if v is not None:
                return v
        return self.search(self.mods[cur], n)


class Fail(Exception):
    pass


def show(w, cur, v, arg):
    """what calling v with arg, or v itself, is"""
    if v[0] == 'val':
        return v[1]
    out = [v[1], arg]
    for n in v[2]:
        x = w.value(cur, n, via=v[1])
        if x is None:
            raise Fail
        out.append(x[1] if x[0] == 'val' else '#<procedure>')
    return '(' + ' '.join(out) + ')'


def names_text(r, ns):
    return f'({" ".join(ns)})' if r.random() < .4 else ' '.join(ns)


def make(r, i):
    w = World()
    files = {}
    nt = r.randrange(1, 5)
    names = [f't{k}' for k in range(nt)]
    for k, t in enumerate(names):
        m = w.mods[t] = Mod(t)
        m.loaded = False
        if r.random() < .06:
            m.body = []             # there is no such file
            m.loaded = True
            continue
        head = ''
        m.body = []
        for o in names[:k]:
            if r.random() < .3:
                ns = r.sample(POOL, r.randrange(1, 4))
                head += f' #:autoload (at {o}) {names_text(r, ns)}'
                m.specs.insert(0, (o, ns))
        text = f'(define-module (at {t}){head})\n'
        text += f"(set! log-q (cons '{t} log-q))\n"
        m.body.append(('log',))
        exported, pub = r.random() < .8, set()
        for n in r.sample(POOL, r.randrange(1, 5)):
            p = exported and r.random() < .75
            d = 'define-public' if p else 'define'
            if r.random() < .6:
                v = f'({t} {n} {r.randrange(9)})' if r.random() < .85 else '#f'
                text += f"({d} {n} '{v})\n"
                m.body.append(('def', n, ('val', v)))
            else:
                refs = [x for x in r.sample(POOL, r.randrange(0, 3)) if x != n]
                text += f"({d} {n} (lambda (x) (list '{t} x {' '.join(refs)})))\n"
                m.body.append(('def', n, ('fun', t, refs)))
            if p:
                pub.add(n)
        if pub:
            m.public = pub
        if r.random() < .07:
            text += "(throw 'no-module)\n"
            m.body.append(('fail',))
        files[f'at/{t}.scm'] = text
    parts = [("(begin (define log-q '()) 0)", [('V', '0')])]
    cons = []
    for k in range(r.randrange(1, 4)):
        c = f'c{k}'
        m = w.mods[c] = Mod(c)
        head = ''
        for t in names:
            if r.random() < .7:
                ns = r.sample(POOL, r.randrange(1, 5))
                head += f' #:autoload (at {t}) {names_text(r, ns)}'
                m.specs.insert(0, (t, ns))
        parts.append((f'(define-module (ac {c}){head})', [('N',)]))
        for n in r.sample(POOL, r.choice([0, 0, 1])):
            m.own[n] = ('val', f'({c} {n})')
            parts.append((f"(begin (define {n} '({c} {n})) 0)", [('V', '0')]))
        parts.append((f"(begin (define-macro (mac-{c} a) `(list 'm ,a)) 0)", [('V', '0')]))
        cons.append(c)
        cur = c
    keep = len(parts)
    for _ in range(r.randrange(5, 20)):
        k = r.random()
        if k < .2 and len(cons) > 1:
            cur = r.choice(cons)
            parts.append((f"(begin (set-current-module (resolve-module '(ac {cur}))) 0)", [('V', '0')]))
            continue
        if k < .3:
            parts.append(('log-q', [('V', '(' + ' '.join(w.log) + ')' if w.log else '()')]))
            continue
        n = r.choice(POOL)
        arg = str(r.randrange(9))
        if k < .36:
            parts.append((f'(let (({n} {arg})) (list {n} log-q))', [('V', f'({arg} ({" ".join(w.log)}))')]))
            continue
        try:
            v = w.value(cur, n)
            out = show(w, cur, v, arg) if v else None
        except Fail:
            out = None
        # whether it is a procedure is found out by the program
        e = f'(let ((v {n})) (if (procedure? v) (v {arg}) v))'
        e = r.choice([e, f'(car (list {e}))', f'((lambda (z) {e}) 1)', f'(cadr (mac-{cur} {e}))'])
        if out is None and r.random() < .5:
            parts.append((f"(catch #t (lambda () {e}) (lambda (k . a) 'no))", [('V', 'no')]))
        else:
            parts.append((e, [('X', None)] if out is None else [('V', out)]))
    parts.append(('log-q', [('V', '(' + ' '.join(w.log) + ')' if w.log else '()')]))
    return binder.Part(parts, keep=keep, mode='forms', files=files)
