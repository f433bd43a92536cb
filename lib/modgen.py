"""Programs over file modules: the same few names are defined, exported, imported, assigned and called in several modules and in the program."""
import refscm
from expect import Prog

KINDS = dict(v=6, f=6, g=5, s=4, k=3, w=3)


class Scope:
    def __init__(self, name):
        self.name = name
        self.own, self.exports, self.seen = [], [], []     # seen: names its uses export

    def visible(self):
        return self.own + self.seen


class MG:
    def __init__(self, r):
        self.r = r
        self.mods = []

    def name(self, sc, kind, below=99, wild=0.07):
        r = self.r
        c = [n for n in sc.visible() if n[0] == kind and int(n[1:]) < below]
        if c and r.random() > wild:
            return r.choice(c)
        if r.random() < wild or (not c and r.random() < .15):
            return kind + str(r.randrange(min(below, KINDS[kind]))) if below > 0 else None
        return None

    def num(self, sc, below, loc, d=0):
        r = self.r
        k = r.random()
        if loc and r.random() < .25:
            return r.choice(loc)
        if k < .4:
            n = self.name(sc, 'v')
            if n:
                return n
        if d < 2 and k < .6:
            return f'(+ {self.num(sc, below, loc, d + 1)} {self.num(sc, below, loc, d + 1)})'
        if d < 3 and k < .78:
            n = self.name(sc, 'g', below)
            if n:
                return f'({n} {self.num(sc, below, loc, d + 1)})'
        return str(r.randrange(100))

    def any(self, sc, below, loc, d=0):
        r = self.r
        k = r.random()
        if d < 3:
            if k < .25:
                n = self.name(sc, 'f', below)
                if n:
                    return f'({n})'
            elif k < .45:
                return '(list ' + ' '.join(self.any(sc, below, loc, d + 1) for _ in range(r.randrange(1, 4))) + ')'
            elif k < .55:
                n = self.name(sc, 'k', below)
                if n:
                    return f'({n} {self.any(sc, below, loc, d + 1)})'
            elif k < .62:
                n = self.name(sc, 'w', below)
                if n:
                    return f'({n} (lambda () {self.any(sc, below, loc, d + 1)}))'
            elif k < .70:
                x = 'v%d' % r.randrange(KINDS['v'])
                return f'(let (({x} {self.num(sc, below, loc, d + 1)})) {self.any(sc, below, loc + [x], d + 1)})'
            elif k < .74:
                return f"(catch #t (lambda () {self.any(sc, below, loc, d + 1)}) (lambda e 'err))"
            elif k < .80:
                n = self.name(sc, 's', below)
                if n:
                    return f'(begin ({n} {self.num(sc, below, loc, d + 1)}) {self.any(sc, below, loc, d + 1)})'
            elif k < .84:
                f = self.name(sc, 'f', below) or self.name(sc, 'v')
                if f:
                    return f if f[0] == 'v' else f'(map (lambda (t) (t)) (list {f} {f}))'
            elif k < .87 and d:
                return f"(eq? (current-module) (resolve-module '{self.modname()}))"
        return self.num(sc, below, loc, d)

    def effects(self, sc, below, loc):
        r = self.r
        out = []
        while r.random() < .4:
            v = self.name(sc, 'v', wild=0)
            if v and v not in loc:
                out.append(f'(set! {v} {self.num(sc, below, loc)})')
        return ' '.join(out)

    def modname(self):
        return self.r.choice(self.mods)[0] if self.mods and self.r.random() < .8 else '(pscm-user)'

    def define(self, sc, main=False):
        """a definition of a name of random kind and its text, with DEF for define or define-public"""
        r = self.r
        kind = r.choice('vvvvffffgggsskw')
        i = r.randrange(KINDS[kind])
        n = f'{kind}{i}'
        if n in sc.own and r.random() < .7:
            return None
        if kind == 'v':
            t = f'(DEF {n} {self.safe(self.num(sc, 99, []), "0")})'
        elif kind == 'f':
            k = r.random()
            b = self.any(sc, i, [])
            if k < .6:
                t = f'(DEF ({n}) {self.effects(sc, i, [])} {b})'
            elif k < .8:
                t = f'(DEF {n} (lambda () {self.effects(sc, i, [])} {b}))'
            else:
                x = 'v%d' % r.randrange(KINDS['v'])
                t = f'(DEF {n} (let (({x} {r.randrange(50)})) (lambda () (set! {x} (+ {x} 1)) (list {x} {self.any(sc, i, [x])}))))'
        elif kind == 'g':
            x = r.choice(['x', 'y', 'v%d' % r.randrange(KINDS['v'])])
            t = f'(DEF ({n} {x}) {self.effects(sc, i, [x])} {self.num(sc, i, [x])})'
        elif kind == 's':
            v = self.name(sc, 'v', wild=0)
            if not v:
                return None
            t = f'(DEF ({n} x) (set! {v} {r.choice(["x", f"(+ {v} x)", f"(+ x {self.num(sc, i, [])})"])}) ' + r.choice([v, "'set", f'(list {v} x)']) + ')'
        elif kind == 'w':
            t = f'(DEF ({n} t) {self.effects(sc, i, [])} (list {self.num(sc, i, [])} (t) {self.num(sc, i, [])}))'
        else:
            h = r.choice([f"''{r.choice('abc')}", self.num(sc, 0, [])])
            t = r.choice([f"(define-macro ({n} a) (list 'list a {h}))", f"(define-macro ({n} a) `(cons ,{h} (list ,a)))",
                          f"(define-macro ({n} a) (list 'let (list (list 'q {h})) (list 'list 'q a)))"])
        sc.own.append(n)
        return n, t

    def safe(self, e, dflt):
        if e[0] == '(' or e[0] == 'v':
            return f'(catch #t (lambda () {e}) (lambda e {dflt}))'
        return e

    def uses(self, sc, others):
        r = self.r
        o = r.choice(others)
        sc.seen += o.exports if o.exports else o.own
        return f'(m {o.name})'

    def module(self, i, n):
        r = self.r
        sc = Scope('abcdefg'[i])
        later = self.scopes[:]               # modules made before (that do not use this one)
        body = []
        head_uses = ''
        nuse = r.choice([0, 0, 1, 1, 1, 2, 3]) if later else 0
        for _ in range(nuse):
            u = self.uses(sc, later)
            if r.random() < .5:
                head_uses += f' #:use-module {u}'
            else:
                body.append(f'(use-modules {u})')
        if r.random() < .8:
            body.append(f"(set! log (cons '{sc.name} log))")
        pub = []
        for _ in range(r.randrange(3, 12)):
            d = self.define(sc)
            if d:
                nm, t = d
                p = r.random() < .3 and 'DEF' in t
                body.append(t.replace('DEF', 'define-public' if p else 'define'))
                if p:
                    pub.append(nm)
            if r.random() < .12 and later and sc.own:
                body.append(f'(use-modules {self.uses(sc, later)})')
            if r.random() < .1:
                v = self.name(sc, 'v', wild=0)
                if v:
                    body.append(f'(set! {v} {self.safe(self.num(sc, 99, []), "1")})')
            if r.random() < .03:
                body.append(f'(begin {self.safe(self.any(sc, 99, []), "2")})')
        if r.random() < .04:
            body.insert(r.randrange(len(body) + 1), r.choice(["(throw 'oops 1)", '(car 5)', '(nonesuch)']))
        if self.leave and r.random() < .5:
            # the rest of the file is left alone, when the program asks for it
            body.insert(r.randrange(len(body) + 1), r.choice(["(if esc (esc 'left))", "(if esc (let ((e esc)) (set! esc #f) (e (list 'left 1))))",
                                                              "(dynamic-wind (lambda () (set! log (cons '< log))) (lambda () (if esc (esc 'left))) (lambda () (set! log (cons '> log))))",
                                                              "(catch 'no (lambda () (if esc (esc 'left))) (lambda e (set! log (cons 'dead log))))"]))
        if self.leave and r.random() < .3 and 'k' not in sc.own:
            # called again by the program, after the file
            body.insert(r.randrange(len(body) + 1), "(define again-%s (call/cc (lambda (c) c)))" % sc.name if False else "(set! log (cons (call/cc (lambda (c) (set! back c) 'first)) log))")
        head_exp = ''
        rest = [x for x in sc.own if x not in pub]
        ex = [x for x in rest if r.random() < .45]
        if ex and r.random() < .5:
            head_exp = f' #:export ({" ".join(ex)})' if r.random() < .5 else f' #:export {" ".join(ex)}'
        elif ex:
            for part in (ex[:len(ex) // 2], ex[len(ex) // 2:]):
                if part:
                    body.insert(r.randrange(len(body) + 1), f'(export {" ".join(part)})')
        re = [x for x in set(sc.seen) if r.random() < .25]
        if re and (ex or pub or r.random() < .5):
            re.sort()
            body.append(f'(re-export {" ".join(re)})')
        else:
            re = []
        sc.exports = list(dict.fromkeys(pub + ex + re))
        if r.random() < .03 and n > 1:
            body.insert(r.randrange(len(body) + 1), f'(use-modules (m {"abcdefg"[r.randrange(n)]}))')
        head = head_exp + head_uses if r.random() < .5 else head_uses + head_exp
        self.scopes.append(sc)
        return [f'(define-module (m {sc.name}){head})'] + body

    def program(self):
        r = self.r
        n = r.randrange(1, 5)
        self.scopes, files = [], {}
        self.leave = r.random() < .25
        self.mods = [(f'(m {"abcdefg"[i]})',) for i in range(n)]
        for i in range(n):
            files[f'm/{"abcdefg"[i]}.scm'] = self.module(i, n)
        main = Scope('main')
        forms = ["(define log '())"]
        if self.leave:
            forms += ['(define esc #f)', '(define back #f)']
        for _ in range(r.randrange(12, 40)):
            k = r.random()
            if k < .17:
                forms.append('(use-modules ' + ' '.join(self.uses(main, self.scopes) for _ in range(r.choice([1, 1, 1, 2]))) + ')')
            elif k < .3:
                d = self.define(main, True)
                if d:
                    forms.append(d[1].replace('DEF', 'define'))
            elif k < .42:
                v = self.name(main, 'v', wild=0)
                if v:
                    forms.append(f'(set! {v} {self.num(main, 99, [])})')
            elif k < .5:
                v = self.name(main, 's', wild=0)
                if v:
                    forms.append(f'({v} {self.num(main, 99, [])})')
            elif k < .58:
                m = r.choice(self.scopes)
                if m.own:
                    x = r.choice(m.own)
                    if x[0] == 'v':
                        forms.append(f"(module-ref (resolve-module '(m {m.name})) '{x})")
                    elif x[0] == 'f':
                        forms.append(f"((module-ref (resolve-module '(m {m.name})) '{x}))")
                    elif x[0] == 'g':
                        forms.append(f"((module-ref (resolve-module '(m {m.name})) '{x}) {r.randrange(9)})")
            elif k < .62:
                x = r.choice('vfgsw')
                forms.append(f"(module-bound? (resolve-module '{self.modname()}) '{x}{r.randrange(KINDS[x])})")
            elif k < .7 and self.leave:
                load = f"(resolve-module '{self.modname()})"
                forms.append(r.choice([f"(call/cc (lambda (k) (set! esc k) {load} 'whole))", f"(list (call/cc (lambda (k) (set! esc k) {load} 'whole)) (eq? (current-module) (resolve-module '(pscm-user))))",
                                       f"(catch #t (lambda () (call/cc (lambda (k) (set! esc k) {load} (throw 'oops)))) (lambda e 'caught))",
                                       f"(let ((n 0)) (call/cc (lambda (k) (set! esc k) {load} 'whole)) (set! n (+ n 1)) (if (and back (< n 2)) (let ((b back)) (set! back #f) (b n))) n)"]))
                forms.append('(set! esc #f)')
            elif k < .65:
                forms.append(f"(eq? (resolve-module '{self.modname()}) {r.choice(['(current-module)', f'(resolve-module (quote {self.modname()}))'])})")
            elif k < .68:
                forms.append(f"(catch #t (lambda () (resolve-module '{self.modname()}) 'ok) (lambda e 'failed))")
            else:
                forms.append(self.any(main, 99, []))
        # everything is looked at in the end
        names = sorted({x for s in self.scopes for x in s.own if x[0] in 'vf'} | {x for x in main.own if x[0] in 'vf'})

        def look(e):
            return f"(catch #t (lambda () {e}) (lambda e 'none))"
        for x in names:
            forms.append(look(x if x[0] == 'v' else f'({x})'))
        for s in self.scopes:
            forms.append('(list ' + ' '.join(look(f"(module-ref (resolve-module '(m {s.name})) '{x})" if x[0] == 'v' else f"((module-ref (resolve-module '(m {s.name})) '{x}))")
                                             for x in names) + ')')
        forms.append("(list log (eq? (current-module) (resolve-module '(pscm-user))))")
        return files, forms


class ModProg(Prog):
    """forms: of the program; files: name -> list of forms. The events come from the reference; None when it does not model the program."""
    quiet_o = True

    def __init__(self, files, forms, ev):
        self.lists, self.forms = files, forms
        Prog.__init__(self, [(f, []) for f in forms], files={n: '\n'.join(fs) + '\n' for n, fs in files.items()})
        self.ev = ev

    @classmethod
    def make(cls, files, forms):
        try:
            ev, m = refscm.run_program(forms, 40000, {n: '\n'.join(fs) for n, fs in files.items()})
        except (refscm.OutOfDomain, refscm.ReadError, RecursionError):
            return None
        return cls(files, forms, [e for e in ev if e[0] != 'O'])

    def events(self):
        return self.ev

    def cands(self):
        for i in range(len(self.forms) - 1, -1, -1):
            p = ModProg.make(self.lists, self.forms[:i] + self.forms[i + 1:])
            if p:
                yield p
        for n, fs in self.lists.items():
            for i in range(len(fs) - 1, 0, -1):
                p = ModProg.make({**self.lists, n: fs[:i] + fs[i + 1:]}, self.forms)
                if p:
                    yield p
