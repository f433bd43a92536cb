"""Modules made, used, exported from and asked by the program itself, without files: names denote shared variables."""
import binder

BUILTIN = ['assq', 'list-tail']       # hidden by what a module defines or imports under the name
NAMES = ['va', 'vb', 'vc', 'vd', 've', 'vf'] + BUILTIN


class Cell:
    def __init__(self, v):
        self.v = v


class M:
    def __init__(self, w, name, root=None):
        self.w, self.name = w, name
        self.own, self.uses, self.exports, self.iface = {}, [], set(), None

    def find(self, s):
        """the table that has the name"""
        for t in [self] + self.uses + ([self.w.root] if self is not self.w.root else []):
            if s in t.own:
                return t
        return None

    def interface(self):
        if self.iface is None:
            self.iface = M(self.w, self.name)
            for s in self.exports:
                if s in self.own:
                    self.iface.own[s] = self.own[s]
        return self.iface

    def define(self, s, v):
        if s in self.own:
            self.own[s].v = v
        else:
            self.own[s] = Cell(v)
        if s in self.exports:
            self.interface().own[s] = self.own[s]

    def export(self, s):
        self.exports.add(s)
        i = self.interface()
        t = self.find(s)
        if t:
            i.own[s] = t.own[s]

    def use(self, o):
        self.uses.insert(0, o.iface or o)


class W:
    pass


def make(r, i):
    """Half of the programs do some of it through the C API (harness/api_mode.inc)."""
    host = i % 2 == 0
    h = lambda p=.4: host and r.random() < p
    w = W()
    w.root = None
    w.root = M(w, 'root')
    w.builtin = {b: '#<procedure>' for b in BUILTIN}
    ms = [w.root]
    ref = {w.root: 'mq0'}
    parts = [('(begin (define mq0 (current-module)) 0)', [('V', '0')])]
    for k in range(r.randrange(2, 5)):
        m = M(w, f'(mo m{k})')
        ms.append(m)
        ref[m] = f'mq{k + 1}'
        parts.append((f"(begin (define mq{k + 1} (resolve-module '{m.name})) 0)", [('V', '0')]))
        if h(.3):
            parts[-1] = (f'(begin (define mq{k + 1} (c-resolve "{m.name}")) 0)', [('V', '0')])
    keep = len(parts)
    cur, count = w.root, 0

    def ok(f, v='0'):
        parts.append((f, [('V', v)]))

    def lookup(m, s, ref=False):
        t = m.find(s)
        if ref and s in BUILTIN and (t is None or m is w.root):
            return str(w.builtin[s])
        return None if t is None else str(t.own[s].v)

    def answer(f, v):
        if v is not None:
            ok(f, v)
        elif r.random() < .5:
            parts.append((f'(list {f})', [('X', None)]))
        else:
            ok(f"(catch #t (lambda () {f}) (lambda (k . a) 'none))", 'none')

    for _ in range(r.randrange(15, 60)):
        count += 1
        n = count if r.random() < .85 else '#f'
        s = r.choice(NAMES)
        m = r.choice(ms)
        c = r.random()
        if c < .14:
            if m is not w.root and r.random() < .4:
                opts = ''
                after = []
                for _ in range(r.choice([0, 0, 1, 2])):
                    o = r.choice(ms[1:])
                    if r.random() < .5:
                        opts += f' #:use-module {o.name}'
                        m.use(o)
                    else:
                        ns = r.sample(NAMES, r.randrange(1, 3))
                        opts += f' #:export ({" ".join(ns)})'
                        for x in ns:
                            m.export(x)
                parts.append((f'(define-module {m.name}{opts})', [('N',)]))
            else:
                ok(f"(begin ({'c-' if h() else ''}set-current-module {ref[m]}) 0)")
            cur = m
        elif c < .28:
            if cur is w.root and s in BUILTIN:
                w.builtin[s] = n
                ok(f"(begin (c-define '{s} {n}) 0)" if h() else f'(begin (define {s} {n}) 0)')
            elif h() and not (m is w.root and s in BUILTIN):
                m.define(s, n)
                k = r.random()
                if k < .6:
                    ok(f"(c-mdef{'s' if k < .3 else ''} {ref[m]} '{s} {n})", str(n))
                else:
                    ok(f"(begin (c-within {ref[m]} (lambda () (eval '(define {s} {n})))) 0)")
            elif r.random() < .3:
                cur.define(s, n)
                cur.export(s)
                ok(f'(begin (define-public {s} {n}) 0)')
            else:
                cur.define(s, n)
                ok(f"(begin (c-define '{s} {n}) 0)" if h() else f'(begin (define {s} {n}) 0)')
        elif c < .38:
            t = cur.find(s)
            if s in BUILTIN and (t is None or cur is w.root):
                w.builtin[s] = n
            elif t:
                t.own[s].v = n
            if t or s in BUILTIN:
                ok(f'(begin (set! {s} {n}) 0)' if r.random() < .5 else f'((lambda (x) (set! {s} x) 0) {n})')
        elif c < .46:
            ns = r.sample(NAMES if cur is not w.root else NAMES[:-2], r.randrange(1, 3))
            for x in ns:
                cur.export(x)
            ok(f'(begin ({r.choice(["export", "re-export"])} {" ".join(ns)}) 0)')
        elif c < .54:
            o = r.choice(ms[1:] if r.random() < .9 else ms)
            k = r.random()
            if o is not w.root and h():
                cur.use(o)
                ok(f'(begin (c-use "{o.name}") 0)')
            elif k < .5 and o is not w.root:
                m.use(o)
                ok(f"(begin (module-use! {ref[m]} '{o.name}) 0)")
            elif k < .75:
                m.use(o)
                ok(f'(begin (module-use! {ref[m]} {ref[o]}) 0)')
            else:
                if o.iface is not None:
                    m.use(o.iface)
                else:
                    m.use(o)
                ok(f"(begin (module-use! {ref[m]} (module-ref {ref[o]} '%module-public-interface)) 0)")
        elif c < .68:
            if h(.3):
                answer(f"(c-within {ref[m]} (lambda () (eval '{s})))", lookup(m, s, True))
                continue
            if h(.3):
                answer(f"(c-{r.choice(['ref', 'look'])} '{s})", lookup(cur, s, True))
                continue
            e = s if r.random() < .6 else f"(eval '{s})"
            answer(r.choice([e, f'((lambda () {e}))', f'(car (list {e}))']), lookup(cur, s, True))
        elif c < .76:
            answer(f"({r.choice(['c-mref', 'c-mrefs']) if h() else 'module-ref'} {ref[m]} '{s})", lookup(m, s))
        elif c < .8:
            ok(f"(module-ref {ref[m]} '{s} 'other)", lookup(m, s) or 'other')
        elif c < .85:
            ok(f"(module-bound? {ref[m]} '{s})", '#t' if m.find(s) else '#f')
        elif c < .9:
            i = m.iface or m
            answer(f"(module-ref (module-ref {ref[m]} '%module-public-interface) '{s})", lookup(i, s))
        elif c < .95:
            t = r.choice(ms[1:])
            e = ref[t]
            if t.iface is not None and r.random() < .5:
                t, e = t.iface, f"(module-ref {e} '%module-public-interface)"
            vs = [x.v for x in t.own.values() if x.v != '#f']
            if r.random() < .5:
                ok(f'(apply + (module-map (lambda (k v) (if v v 0)) {e}))', str(sum(vs)))
            else:
                x = t.own.get(s)
                ok(f"(let ((n 0) (f 'none)) (module-map (lambda (k v) (set! n (+ n 1)) (if (eq? k '{s}) (set! f v))) {e}) (list n f))", f'({len(t.own)} {x.v if x else "none"})')
        elif c < .97:
            ok(f"(list (eq? ({'c-' if h() else ''}current-module) {ref[m]}) (module? {ref[m]}) (module? '{s}))", f'({"#t" if m is cur else "#f"} #t #f)')
        elif m is not w.root:
            ok(f"(eq? (resolve-module '{m.name}) {ref[m]})", '#t')
    parts = [(f, e) for f, e in parts]
    return binder.Part(parts, keep=keep, mode='capi' if host else 'forms')
