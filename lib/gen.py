"""Typed random program generator for the core language."""
import random

INT, BOOL, LIST, STR, SYM, FN, ANY, DLIST = 'int', 'bool', 'list', 'str', 'sym', 'fn', 'any', 'dlist'
TYPES = [INT, BOOL, LIST, STR, SYM, DLIST]


class Scope:
    def __init__(self, up=None, glob=False):
        self.up = up
        self.vars = []       # (name, type, settable)
        self.glob = glob

    def all(self):
        s = self
        out = []
        seen = set()
        while s:
            for n, t, w in reversed(s.vars):
                if n not in seen:
                    seen.add(n)
                    out.append((n, t, w))
            s = s.up
        return out


class Gen:
    # feature -> weight; profiles override
    DEFAULT = dict(let=6, letstar=3, letrec=2, named=3, do=2, cond=5, case=3, andor=3, begin=3, set=4, lam=4, hof=4,
                   apply=2, callcc=0, wind=0, catch=0, values=1, delay=0, qq=2, disp=3, err=0, str=3, vec=2, innerdef=2,
                   closure=3, gcall=4, shadow=3, hash=0, gen=0, macro=0, rest=2, arity=0, scope=1)

    def __init__(self, rng, **weights):
        self.r = rng
        self.w = dict(self.DEFAULT)
        self.w.update(weights)
        self.n = 0
        self.glob = Scope(glob=True)
        self.fns = []            # global functions: (name, argtypes, rettype)
        self.macros = []
        self.fuel = 0

    # ---- helpers
    def fresh(self, p='v'):
        self.n += 1
        if self.w['shadow'] and self.r.randrange(100) < 6 * self.w['shadow']:
            return self.r.choice(['x', 'y', 'z', 'n', 'lst', 'acc'])
        return f'{p}{self.n}'

    def pick(self, items):
        tot = sum(w for w, _ in items)
        x = self.r.random() * tot
        for w, f in items:
            x -= w
            if x < 0:
                return f
        return items[-1][1]

    def intlit(self):
        r = self.r
        return str(r.choice([0, 1, 2, 3, 5, 7, 10, -1, -2, -7, 100, r.randrange(-50, 50), r.randrange(-5, 10)]))

    def symname(self):
        return self.r.choice(['a', 'b', 'c', 'foo', 'bar', 'x', 'y', 'hello-world', 'set!', '+', 'list->x'])

    def strlit(self):
        r = self.r
        return '"' + ''.join(r.choice(['a', 'b', 'c', ' ', 'xyz', '\\"', '\\\\', '\\n', '(', ';', "'"]) for _ in range(r.randrange(0, 5))) + '"'

    def datum(self, d=2):
        r = self.r
        c = r.randrange(8)
        if d <= 0 or c < 4:
            return r.choice([self.intlit(), self.symname(), self.strlit(), '#t', '#f', '()', '#\\a', '#\\space'])
        n = r.randrange(0, 4)
        xs = [self.datum(d - 1) for _ in range(n)]
        if c == 7 and xs:
            last = self.r.choice([self.intlit(), self.symname()])
            return '(' + ' '.join(xs) + ' . ' + last + ')'
        if c == 6:
            return '#(' + ' '.join(xs) + ')'
        return '(' + ' '.join(xs) + ')'

    def vars_of(self, sc, t):
        return [n for n, ty, _ in sc.all() if ty == t or (t == ANY and ty != FN)]

    # ---- expressions
    def e(self, t, sc, d):
        """An expression of type t in scope sc with depth budget d."""
        self.fuel -= 1
        r = self.r
        if d <= 0 or self.fuel <= 0:
            return self.leaf(t, sc)
        if self.w['err'] and r.randrange(1000) < self.w['err']:
            return self.error_expr(sc)
        opts = [(4, lambda: self.leaf(t, sc)), (10, lambda: self.op(t, sc, d - 1))]
        W = self.w

        def add(k, f):
            if W[k]:
                opts.append((W[k], f))
        add('let', lambda: self.let(t, sc, d))
        add('letstar', lambda: self.letstar(t, sc, d))
        add('letrec', lambda: self.letrec(t, sc, d))
        add('named', lambda: self.named(t, sc, d))
        add('do', lambda: self.do(t, sc, d))
        add('cond', lambda: self.cond(t, sc, d))
        add('case', lambda: self.case(t, sc, d))
        add('andor', lambda: self.andor(t, sc, d))
        add('begin', lambda: self.begin(t, sc, d))
        add('lam', lambda: self.lam_call(t, sc, d))
        add('closure', lambda: self.closure(t, sc, d))
        add('innerdef', lambda: self.innerdef(t, sc, d))
        add('callcc', lambda: self.callcc(t, sc, d))
        add('wind', lambda: self.wind(t, sc, d))
        if self.w['wind'] and d > 2:
            opts.append((self.w['wind'] / 2, lambda: self.wind2(t, sc, d)))
        add('catch', lambda: self.catch(t, sc, d))
        add('values', lambda: self.values(t, sc, d))
        add('delay', lambda: self.delay(t, sc, d))
        add('gen', lambda: self.generator(t, sc, d))
        add('apply', lambda: self.apply(t, sc, d))
        add('rest', lambda: self.restcall(t, sc, d))
        if d > 2:
            add('scope', lambda: self.scopes(t, sc, d))
        add('arity', lambda: self.arity(t, sc, d))
        if self.fns:
            add('gcall', lambda: self.gcall(t, sc, d))
        if self.macros:
            add('macro', lambda: self.macrocall(t, sc, d))
        return self.pick(opts)()

    def leaf(self, t, sc):
        vs = self.vars_of(sc, t)
        if vs and self.r.random() < 0.7:
            return self.r.choice(vs)
        if t == INT:
            return self.intlit()
        if t == BOOL:
            return self.r.choice(['#t', '#f'])
        if t == LIST:
            return self.r.choice(["'()", "(list 1 2 3)", "'(4 5)", "(list)", "'(3 1 2 1)"])
        if t == STR:
            return self.strlit()
        if t == SYM:
            return "'" + self.symname()
        if t == FN:
            v = self.fresh()
            return f'(lambda ({v}) {v})'
        if t == DLIST:
            return self.r.choice(["'(a b)", "(list 'a \"s\" #\\c)", "'((+ 1 2) (a . b))", "(list (list 'car 5) '())", "'(if x)", "'((quote q) 7)",
                                  "(list 'y (list 'x))", "'(#t #f ())"])
        return "'" + self.datum()

    def op(self, t, sc, d):
        r = self.r
        E = lambda ty: self.e(ty, sc, d)
        if t == INT:
            return self.pick([
                (5, lambda: f'(+ {E(INT)} {E(INT)})'), (3, lambda: f'(- {E(INT)} {E(INT)})'),
                (2, lambda: f'(* {self.intlit()} {self.leaf(INT, sc)})'), (1, lambda: f'(- {E(INT)})'),
                (1, lambda: '(+ ' + ' '.join(E(INT) for _ in range(r.randrange(0, 5))) + ')'),
                (2, lambda: f'(length {E(LIST)})'), (1, lambda: f'(length {E(DLIST)})'), (1, lambda: f'(car (cons {E(INT)} {E(LIST)}))'),
                (1, lambda: f'(apply + {E(LIST)})'), (1, lambda: f'(string-length {E(STR)})'),
                (1, lambda: f'(max {E(INT)} {E(INT)})'), (1, lambda: f'(min {E(INT)} {E(INT)} {E(INT)})'),
                (1, lambda: f'(abs {E(INT)})'), (2, lambda: f'({E(FN)} {E(INT)})'),
                (1, lambda: f'(quotient {E(INT)} {r.choice([2, 3, -2, 7])})'),
                (1, lambda: f'(remainder {E(INT)} {r.choice([2, 3, -3, 7])})'),
                (1, lambda: f'(modulo {E(INT)} {r.choice([2, 3, -3, 7])})'),
                (1, lambda: f'(list-ref (list {E(INT)} {E(INT)} {E(INT)}) {r.randrange(3)})'),
                (1, lambda: f'(vector-ref (vector {E(INT)} {E(INT)}) {r.randrange(2)})'),
                (2, lambda: f'(if {self.test(sc, d)} {E(INT)} {E(INT)})'),
            ])()
        if t == BOOL:
            return self.pick([
                (4, lambda: f'({r.choice(["<", ">", "=", "<=", ">="])} {E(INT)} {E(INT)})'),
                (2, lambda: f'(not {E(BOOL)})'), (2, lambda: f'(null? {E(LIST)})'), (1, lambda: f'(pair? {E(LIST)})'),
                (1, lambda: f'(equal? {E(LIST)} {E(LIST)})'), (1, lambda: f'(equal? {E(DLIST)} {E(DLIST)})'),
                (1, lambda: f'(null? {E(DLIST)})'), (1, lambda: f'(pair? (memq {E(SYM)} {E(DLIST)}))'), (1, lambda: f'(eq? {E(SYM)} {E(SYM)})'),
                (1, lambda: f'(string=? {E(STR)} {E(STR)})'), (1, lambda: f'(zero? {E(INT)})'),
                (1, lambda: f'(even? {E(INT)})'), (1, lambda: f'(eqv? {E(INT)} {E(INT)})'),
                (1, lambda: f'(procedure? {r.choice([E(FN), E(INT)])})'),
                (1, lambda: f'(symbol? {r.choice([E(SYM), E(INT), E(STR)])})'),
                (1, lambda: f'(< {E(INT)} {E(INT)} {E(INT)})'),
                (1, lambda: f'(if (memv {E(INT)} {E(LIST)}) #t #f)'),
                (1, lambda: f'(if {self.test(sc, d)} {E(BOOL)} {E(BOOL)})'),
            ])()
        if t == LIST:
            opts = [
                (3, lambda: f'(cons {E(INT)} {E(LIST)})'), (2, lambda: '(list ' + ' '.join(E(INT) for _ in range(r.randrange(0, 4))) + ')'),
                (2, lambda: f'(append {E(LIST)} {E(LIST)})'), (1, lambda: f'(reverse {E(LIST)})'),
                (1, lambda: f'(cdr (cons {E(INT)} {E(LIST)}))'),
                (1, lambda: f'(if {self.test(sc, d)} {E(LIST)} {E(LIST)})'),
                (1, lambda: f'(list-tail (cons {E(INT)} (cons {E(INT)} {E(LIST)})) {r.randrange(3)})'),
                (1, lambda: f'(vector->list (vector {E(INT)} {E(INT)}))'),
            ]
            if self.w['hof']:
                opts += [(self.w['hof'], lambda: f'(map {E(FN)} {E(LIST)})'),
                         (self.w['hof'] / 2, lambda: self.map2(sc, d))]
            if self.w['qq']:
                opts.append((self.w['qq'], lambda: self.qq(sc, d)))
            return self.pick(opts)()
        if t == STR:
            return self.pick([
                (3, lambda: f'(string-append {E(STR)} {E(STR)})'), (2, lambda: f'(number->string {E(INT)})'),
                (2, lambda: f'(symbol->string {E(SYM)})'), (1, lambda: f'(if {self.test(sc, d)} {E(STR)} {E(STR)})'),
                (1, lambda: f'(substring (string-append "abc" {E(STR)}) {r.randrange(2)} {r.randrange(2, 4)})'),
                (1, lambda: f'(list->string (list #\\a #\\{r.choice("bcdXYZ")}))'),
            ])()
        if t == SYM:
            return self.pick([
                (2, lambda: f'(string->symbol {r.choice([chr(34) + "q" + chr(34), "(symbol->string " + E(SYM) + ")"])})'),
                (2, lambda: f'(if {self.test(sc, d)} {E(SYM)} {E(SYM)})'), (1, lambda: f'(car (list {E(SYM)} {E(INT)}))'),
                (1, lambda: self.leaf(SYM, sc)),
            ])()
        if t == FN:
            v = self.fresh()
            s2 = Scope(sc)
            s2.vars.append((v, INT, True))
            return f'(lambda ({v}) {self.bodyexpr(INT, s2, d)})'
        if t == DLIST:
            def el():
                return self.e(ANY, sc, d)
            v = self.fresh()
            s2 = Scope(sc)
            s2.vars.append((v, ANY, True))
            w = v + 'w'
            s3 = Scope(s2)
            s3.vars.append((w, ANY, True))
            return self.pick([
                (3, lambda: '(list ' + ' '.join(el() for _ in range(r.randrange(0, 4))) + ')'), (2, lambda: f'(cons {el()} {E(DLIST)})'),
                (1, lambda: f'(append {E(DLIST)} {E(r.choice([DLIST, LIST]))})'), (1, lambda: f'(reverse {E(DLIST)})'),
                (2, lambda: f'(map (lambda ({v}) {self.e(ANY, s2, d)}) {E(r.choice([DLIST, LIST]))})'),
                (1, lambda: f'(map {r.choice(["list", "cons", "eq?", "equal?"])} (list {el()} {el()}) (list {el()} {el()}))'),
                (1, lambda: f'(map (lambda ({v} {w}) {self.e(ANY, s3, d)}) (list {el()} {el()}) (list {el()} {el()}))'),
                (1, lambda: f'(apply list {E(DLIST)})'), (1, lambda: f'(let (({v} {el()})) (apply list {v} {self.leaf(LIST, sc)}))'),
                (1, lambda: f'(apply map list (list {E(DLIST)}))'),
                (1, lambda: f"((lambda {v} (map (lambda (x) x) {v})) {el()} {el()})"),
                (1, lambda: f'(if {self.test(sc, d)} {E(DLIST)} {E(LIST)})'),
                (1, lambda: f'(call-with-values (lambda () (values {el()} {el()})) list)'),
            ])()
        # ANY
        if self.vars_of(sc, ANY) and r.random() < .3:
            return self.leaf(ANY, sc)
        return self.e(r.choice(TYPES), sc, d)

    def map2(self, sc, d):
        a, b = self.fresh(), self.fresh()
        if a == b:
            b = b + '2'
        s2 = Scope(sc)
        s2.vars += [(a, INT, True), (b, INT, True)]
        l = self.fresh('l')
        n = self.r.randrange(0, 4)
        l1 = '(list ' + ' '.join(self.e(INT, sc, d - 2) for _ in range(n)) + ')'
        l2 = '(list ' + ' '.join(self.e(INT, sc, d - 2) for _ in range(n)) + ')'
        return f'(map (lambda ({a} {b}) {self.e(INT, s2, d - 1)}) {l1} {l2})'

    def effect(self, sc, d):
        """An expression evaluated for effect."""
        r = self.r
        vs = [(n, t) for n, t, w in sc.all() if w]
        opts = []
        if vs and self.w['set']:
            def f():
                n, t = r.choice(vs)
                return f'(set! {n} {self.e(t, sc, d - 1)})'
            opts.append((self.w['set'], f))
        if self.w['disp']:
            opts.append((self.w['disp'], lambda: f'(display {self.e(r.choice(TYPES), sc, d - 1)})'))
            opts.append((self.w['disp'] / 2, lambda: f'(write {self.e(r.choice(TYPES), sc, d - 1)})'))
        if self.w['hof']:
            def g():
                v = self.fresh()
                s2 = Scope(sc)
                s2.vars.append((v, INT, True))
                if r.random() < .4:
                    s2.vars[-1] = (v, ANY, True)
                    if r.random() < .3:
                        s2.vars.append((v + 'w', ANY, True))
                        a = ' '.join(self.e(ANY, sc, d - 2) for _ in range(2))
                        b = ' '.join(self.e(ANY, sc, d - 2) for _ in range(2))
                        return f'(for-each (lambda ({v} {v}w) {self.effect(s2, d - 2)}) (list {a}) (list {b}))'
                    return f'(for-each (lambda ({v}) {self.effect(s2, d - 2)}) {self.e(DLIST, sc, d - 2)})'
                return f'(for-each (lambda ({v}) {self.effect(s2, d - 2)}) {self.e(LIST, sc, d - 2)})'
            if d > 1:
                opts.append((self.w['hof'] / 2, g))
        opts.append((1, lambda: f'(if {self.e(BOOL, sc, d - 1)} {self.effect(sc, d - 2) if d > 1 else "(display 0)"} (display "."))'))
        if d > 2 and self.w['do']:
            def h():
                v = self.fresh('i')
                s2 = Scope(sc)
                s2.vars.append((v, INT, False))
                return f'(do (({v} 0 (+ {v} 1))) ((= {v} {r.randrange(0, 4)})) {self.effect(s2, d - 2)})'
            opts.append((self.w['do'] / 2, h))
        return self.pick(opts)() if opts else '(display 1)'

    def test(self, sc, d):
        """What decides a branch: any object, and anything may happen on the way."""
        c = self.r.random()
        x = self.e(ANY if c < .12 else BOOL, sc, d)
        if self.r.random() < .12:
            return f'(begin {self.effect(sc, d - 1)} {x})'
        return f'(not {x})' if c < .03 else x

    def bodyexpr(self, t, sc, d):
        """A body: effects then a value."""
        if self.r.random() < 0.3 and d > 1:
            return self.effect(sc, d - 1) + ' ' + self.e(t, sc, d - 1)
        return self.e(t, sc, d - 1)

    def binds(self, sc, d, n=None):
        n = n or self.r.randrange(1, 4)
        out, names = [], set()
        for _ in range(n):
            v = self.fresh()
            if v in names:
                continue
            names.add(v)
            t = self.r.choice(TYPES + ([FN] if self.w['closure'] else []))
            out.append((v, t))
        return out

    def let(self, t, sc, d):
        bs = self.binds(sc, d)
        s2 = Scope(sc)
        txt = ' '.join(f'({v} {self.e(ty, sc, d - 1)})' for v, ty in bs)
        s2.vars += [(v, ty, ty != FN) for v, ty in bs]
        return f'(let ({txt}) {self.bodyexpr(t, s2, d)})'

    def letstar(self, t, sc, d):
        s = sc
        parts = []
        for v, ty in self.binds(sc, d):
            parts.append(f'({v} {self.e(ty, s, d - 1)})')
            s = Scope(s)
            s.vars.append((v, ty, ty != FN))
        return f'(let* ({" ".join(parts)}) {self.bodyexpr(t, s, d)})'

    def letrec(self, t, sc, d):
        a, b = f'ev{self.n}', f'od{self.n}'
        self.n += 1
        n = self.fresh('n')
        s2 = Scope(sc)
        k = self.r.randrange(0, 6)
        s3 = Scope(sc)
        s3.vars.append((n, INT, True))
        base = self.e(t, s3, d - 2)
        base2 = self.e(t, s3, d - 2)
        return (f'(letrec (({a} (lambda ({n}) (if (<= {n} 0) {base} ({b} (- {n} 1))))) '
                f'({b} (lambda ({n}) (if (<= {n} 0) {base2} ({a} (- {n} 1)))))) ({a} {k}))')

    def named(self, t, sc, d):
        f = f'loop{self.n}'
        self.n += 1
        i, acc = f'i{self.n}', f'acc{self.n}'
        s2 = Scope(sc)
        s2.vars += [(i, INT, False), (acc, t, True)]
        step = self.e(t, s2, d - 1)
        eff = (self.effect(s2, d - 2) + ' ') if self.r.random() < 0.2 and d > 2 else ''
        order = self.r.random() < 0.5
        test, a, b = f'(< {i} {self.r.randrange(0, 5)})', f'({f} (+ {i} 1) {step})', acc
        if order:
            test, a, b = f'(not {test})', b, a
        return f'(let {f} (({i} 0) ({acc} {self.e(t, sc, d - 1)})) {eff}(if {test} {a} {b}))'

    def do(self, t, sc, d):
        i, acc = f'i{self.n}', f'acc{self.n}'
        self.n += 1
        s2 = Scope(sc)
        s2.vars += [(i, INT, False), (acc, t, True)]
        eff = self.effect(s2, d - 2) if self.r.random() < 0.4 and d > 2 else ''
        step = self.e(t, s2, d - 2)
        more = ''
        for v, ty in self.params(self.r.choice([0, 0, 0, 1, 2])):
            if v in (i, acc):
                continue
            stepped = self.r.random() < .5
            more += f' ({v} {self.e(ty, sc, d - 2)}' + (f' {self.e(ty, s2, d - 2)})' if stepped else ')')
            # a variable without a step is never assigned: its value may be taken before or after the other steps run
            s2.vars.append((v, ty, stepped))
        res = acc if self.r.random() < .7 else self.bodyexpr(t, s2, d - 2)
        if self.r.random() < .3 and d > 2:
            eff += ' ' + self.effect(s2, d - 2)
        return f'(do (({i} 0 (+ {i} 1)) ({acc} {self.e(t, sc, d - 1)} {step}){more}) ((>= {i} {self.r.randrange(0, 5)}) {res}) {eff})'

    def cond(self, t, sc, d):
        cl = []
        for _ in range(self.r.randrange(1, 4)):
            c = self.r.randrange(10)
            if c == 0 and t == LIST:
                v = self.fresh()
                s2 = Scope(sc)
                s2.vars.append((v, LIST, True))
                cl.append(f'((memv {self.e(INT, sc, d - 1)} {self.e(LIST, sc, d - 1)}) => (lambda ({v}) {self.e(t, s2, d - 1)}))')
            elif c < 2:
                v = self.fresh()
                s2 = Scope(sc)
                s2.vars.append((v, ANY, True))
                x = self.e(ANY, sc, d - 1)
                if self.r.random() < .4:
                    x = f'(begin {self.effect(sc, d - 2)} {x})'
                if self.r.random() < .4:
                    x = f'(and {self.e(BOOL, sc, d - 2)} {x})'
                f = f'(lambda ({v}) {self.bodyexpr(t, s2, d - 1)})'
                if self.r.random() < .3:
                    f = f'(begin {self.effect(sc, d - 2)} {f})'
                cl.append(f'({x} => {f})')
            elif c == 2:
                cl.append(f'({self.e(BOOL, sc, d - 1)})' if t == BOOL else f'((and {self.test(sc, d - 1)} {self.e(t, sc, d - 1)}))')
            else:
                cl.append(f'({self.test(sc, d - 1)} {self.bodyexpr(t, sc, d - 1)})')
        cl.append(f'(else {self.bodyexpr(t, sc, d - 1)})')
        return f'(cond {" ".join(cl)})'

    def case(self, t, sc, d):
        r = self.r
        c = r.random()
        if c < 0.4:
            key = self.e(INT, sc, d - 1)
            ks = [str(i) for i in range(-2, 8)]
        elif c < 0.65:
            key = self.e(r.choice([ANY, BOOL, SYM, INT]), sc, d - 1)
            if r.random() < .4:
                key = f'(begin {self.effect(sc, d - 2)} {key})'
            ks = ['-1', '0', '1', '2', '3', 'a', 'b', 'c', 'foo', 'x', '#t', '#f', '()', '#\\a', '"a"', '"hi"', '(a)', '#\\1', 'else']
        else:
            key = self.e(SYM, sc, d - 1)
            ks = ['a', 'b', 'c', 'foo', 'bar', 'x', 'y']
        r.shuffle(ks)
        cl = []
        for i in range(r.randrange(1, 4)):
            n = r.randrange(1, 4)
            cl.append(f'(({" ".join(ks[:n])}) {self.bodyexpr(t, sc, d - 1)})')
            ks = ks[n:]
            if not ks:
                break
        cl.append(f'(else {self.bodyexpr(t, sc, d - 1)})')
        return f'(case {key} {" ".join(cl)})'

    def andor(self, t, sc, d):
        if t == BOOL:
            k = self.r.choice(['and', 'or'])
            return f'({k} ' + ' '.join(self.e(BOOL, sc, d - 1) for _ in range(self.r.randrange(0, 4))) + ')'
        if self.r.random() < 0.5:
            return f'(or (and {self.test(sc, d - 1)} {self.e(t, sc, d - 1)}) {self.e(t, sc, d - 1)})'
        return f'(and #t {self.e(self.r.choice(TYPES[2:]), sc, d - 2)} {self.e(t, sc, d - 1)})'

    def begin(self, t, sc, d):
        return '(begin ' + ' '.join(self.effect(sc, d - 1) for _ in range(self.r.randrange(0, 3))) + f' {self.e(t, sc, d - 1)})'

    def params(self, n):
        ps, names = [], set()
        while len(ps) < n:
            v = self.fresh()
            if v in names:
                v = f'{v}{self.n}'
                self.n += 1
            names.add(v)
            ps.append((v, self.r.choice(TYPES)))
        return ps

    def lam_call(self, t, sc, d):
        ps = self.params(self.r.randrange(0, 4))
        s2 = Scope(sc)
        s2.vars += [(v, ty, True) for v, ty in ps]
        return (f'((lambda ({" ".join(v for v, _ in ps)}) {self.bodyexpr(t, s2, d - 1)})'
                + ''.join(' ' + self.e(ty, sc, d - 1) for _, ty in ps) + ')')

    def restcall(self, t, sc, d):
        ps = self.params(self.r.randrange(0, 3))
        rest = f'rest{self.n}'
        self.n += 1
        s2 = Scope(sc)
        s2.vars += [(v, ty, True) for v, ty in ps] + [(rest, LIST, True)]
        head = f'({" ".join(v for v, _ in ps)} . {rest})' if ps else rest
        args = [self.e(ty, sc, d - 1) for _, ty in ps] + [self.e(INT, sc, d - 1) for _ in range(self.r.randrange(0, 4))]
        lam = f'(lambda {head} {self.bodyexpr(t, s2, d - 1)})'
        if self.r.random() < 0.4:
            return f'(apply {lam} (list {" ".join(args)}))'
        return f'({lam} {" ".join(args)})'

    POOL = ['x', 'y', 'z', 'n', 'lst', 'acc']

    def scopes(self, t, sc, d):
        """Nested scopes of every kind that bind and assign a few names again and again, and show them at every level."""
        r = self.r

        def const():
            self.n += 1
            return str(1000 + self.n)

        def show(s):
            ns = [n for n, ty, _ in s.all() if n in self.POOL and ty != FN]
            return f'(display (list {" ".join(ns)}))' if ns else '(display 0)'

        def sets(s):
            ns = [n for n, ty, w in s.all() if n in self.POOL and ty == INT and w]
            return ' '.join(f'(set! {n} {const()})' for n in ns if r.random() < .35)

        def level(s, k):
            if k == 0:
                return f'{sets(s)} {show(s)}'
            names = r.sample(self.POOL, r.randrange(1, 4))
            ints = [n for n, ty, _ in s.all() if ty == INT]
            init = lambda: r.choice(ints) if ints and r.random() < .4 else const()
            s2 = Scope(s)
            s2.vars += [(n, INT, True) for n in names]
            kind = r.randrange(8)
            pre = f'{sets(s)} {show(s)} ' if r.random() < .5 else ''
            if kind == 1:
                s2.vars = []
                bs = []
                for n in names:
                    cur = [m for m, ty, _ in s2.all() if ty == INT]
                    bs.append(f'({n} {r.choice(cur) if cur and r.random() < .5 else const()})')
                    s2 = Scope(s2)
                    s2.vars.append((n, INT, True))
                x = f'(let* ({" ".join(bs)}) {show(s2)} {level(s2, k - 1)})'
            elif kind == 2:
                x = f'((lambda ({" ".join(names)}) {level(s2, k - 1)} {show(s2)}) {" ".join(init() for _ in names)})'
            elif kind == 3:
                c = r.randrange(1, 3)
                self.n += 1
                lp, it = f'lp{self.n}', f'it{self.n}'
                step = ' '.join(r.choice(names) if r.random() < .6 else const() for _ in names)
                x = (f'(let {lp} (({it} 0) {" ".join(f"({n} {init()})" for n in names)}) {level(s2, k - 1)} '
                     f'(if (< {it} {c}) ({lp} (+ {it} 1) {step})) {show(s2)})')
            elif kind == 4:
                self.n += 1
                it = f'it{self.n}'
                bs = ' '.join(f'({n} {init()}{" " + r.choice(names) if r.random() < .5 else ""})' for n in names)
                x = f'(do (({it} 0 (+ {it} 1)) {bs}) ((>= {it} {r.randrange(1, 3)}) {show(s2)}) {level(s2, k - 1)})'
            elif kind == 5:
                x = f'(letrec ({" ".join(f"({n} {const()})" for n in names)}) {level(s2, k - 1)} {show(s2)})'
            elif kind == 6:
                self.n += 1
                defs = ' '.join(f'(define {n} {const()})' for n in names)
                x = f'(let ((u{self.n} 0)) {defs} {level(s2, k - 1)} {show(s2)})'
            elif kind == 7:
                # a closure made here, called outside after the names were assigned again
                self.n += 1
                x = (f'(let ((th{self.n} (let ({" ".join(f"({n} {init()})" for n in names)}) (lambda () {level(s2, k - 1)} {show(s2)})))) '
                     f'(th{self.n}) {sets(s)} {show(s)} (th{self.n}))')
            else:
                x = f'(let ({" ".join(f"({n} {init()})" for n in names)}) {level(s2, k - 1)} {show(s2)})'
            return f'{pre}{x} {sets(s)} {show(s)}'
        self.fuel -= 8
        return f'(begin {level(sc, r.randrange(1, 4))} {self.leaf(t, sc)})'

    def arity(self, t, sc, d):
        """A call with any number of arguments: the right number runs the body, any other is an error."""
        r = self.r
        i = self.n
        self.n += 1
        n = r.randrange(0, 4)
        ps = [f'q{i}{j}' for j in range(n)]
        rest = r.random() < .5
        s2 = Scope(sc)
        s2.vars += [(v, INT, True) for v in ps]
        if rest:
            s2.vars.append((f'more{i}', LIST, True))
        head = (f'({" ".join(ps)} . more{i})' if ps else f'more{i}') if rest else f'({" ".join(ps)})'
        k = max(0, n + r.choice([0, 0, 0, -1, 1, 2]))
        body = self.bodyexpr(t, s2, d - 1)
        # whether the operands of a call with the wrong number of arguments run is not specified
        right = k == n or (rest and k > n)
        args = [self.e(INT, sc, d - 2) if right else self.leaf(INT, sc) for _ in range(k)]
        f = f'(lambda {head} {body})'
        c = r.randrange(6)
        if c == 0:
            call = f'(apply {f} (list {" ".join(args)}))'
        elif c == 1 and k:
            call = f'(car (map {f} {" ".join(f"(list {x})" for x in args)}))'
        elif c == 2 and k:
            call = f'(begin (for-each {f} {" ".join(f"(list {x})" for x in args)}) {self.leaf(t, sc)})'
        elif c == 3:
            call = f'(call-with-values (lambda () (values {" ".join(args)})) {f})'
        elif c == 4:
            head2 = head if not rest or not ps else f'({" ".join(ps)} . more{i})'
            define = f'(define (fa{i} . more{i}) {body})' if rest and not ps else f'(define (fa{i}{"".join(" " + p for p in ps)}{f" . more{i}" if rest else ""}) {body})'
            call = f'(let () {define} (fa{i}{"".join(" " + a for a in args)}))'
        else:
            call = f'({f} {" ".join(args)})'
        return f'(catch #t (lambda () {call}) (lambda (ky{i} . ar{i}) (display "no") {self.leaf(t, sc)}))'

    def apply(self, t, sc, d):
        ps = [(v, INT) for v, _ in self.params(self.r.randrange(1, 4))]
        s2 = Scope(sc)
        s2.vars += [(v, ty, True) for v, ty in ps]
        k = self.r.randrange(0, len(ps) + 1)
        a = [self.e(INT, sc, d - 1) for _ in ps]
        # apply evaluates its last operand first: bind the others before
        self.n += 1
        sp = [f'ap{self.n}{i}' for i in range(k)]
        call = (f'(apply (lambda ({" ".join(v for v, _ in ps)}) {self.e(t, s2, d - 1)}) '
                f'{" ".join(sp)} (list {" ".join(a[k:])}))')
        return f'(let ({" ".join(f"({v} {x})" for v, x in zip(sp, a))}) {call})' if k else call

    def closure(self, t, sc, d):
        """A counter shared between two closures."""
        c, g, v = f'cell{self.n}', f'bump{self.n}', f'get{self.n}'
        self.n += 1
        s2 = Scope(sc)
        s2.vars.append((c, t, True))
        up = self.e(t, s2, d - 1)
        n = self.r.randrange(0, 3)
        return (f'(let* (({c} {self.e(t, sc, d - 1)}) ({g} (lambda () (set! {c} {up}) {c})) ({v} (lambda () {c}))) '
                + f'({g}) ' * n + f'({v}))')

    def innerdef(self, t, sc, d):
        f, v = f'h{self.n}', f'w{self.n}'
        self.n += 1
        ps = self.params(1)
        s2 = Scope(sc)
        s2.vars += [(p, ty, True) for p, ty in ps]
        # a definition may be named like a variable of a scope around it, which stays as it is
        outer = [x for x, ty, _ in s2.all() if ty != FN and x != ps[0][0] and x[0] not in ',']
        if outer and self.r.random() < .35:
            v = self.r.choice(outer)
        if outer and self.r.random() < .35:
            f = self.r.choice(outer)
            f += '1' if f == v else ''
        val = self.e(t, s2, d - 1)
        s3 = Scope(s2)
        s3.vars.append((v, t, True))
        if self.r.random() < 0.5:
            inner = f'(define {v} {val})'
        else:
            s3.vars.append((f, FN, False))
            inner = f'(define {v} {val}) ' + self.r.choice([f'(define {f} (lambda () {v}))', f'(define ({f}) {v})'])
            return (f'((lambda ({ps[0][0]}) {inner} {self.effect(s3, d - 1)} ({f})) {self.e(ps[0][1], sc, d - 1)})')
        return f'((lambda ({ps[0][0]}) {inner} {self.bodyexpr(t, s3, d - 1)}) {self.e(ps[0][1], sc, d - 1)})'

    def values(self, t, sc, d):
        ps = self.params(self.r.randrange(0, 4))
        s2 = Scope(sc)
        s2.vars += [(v, ty, True) for v, ty in ps]
        return (f'(call-with-values (lambda () (values {" ".join(self.e(ty, sc, d - 1) for _, ty in ps)})) '
                f'(lambda ({" ".join(v for v, _ in ps)}) {self.bodyexpr(t, s2, d - 1)}))')

    def qq(self, sc, d):
        r = self.r
        parts = []
        for _ in range(r.randrange(0, 4)):
            c = r.randrange(3)
            if c == 0:
                parts.append(self.intlit())
            elif c == 1:
                parts.append(',' + self.e(INT, sc, d - 1))
            else:
                parts.append(',@' + self.e(LIST, sc, d - 1))
        return '`(' + ' '.join(parts) + ')'

    # ---- control
    def callcc(self, t, sc, d):
        k = f'k{self.n}'
        self.n += 1
        cc = self.r.choice(['call/cc', 'call-with-current-continuation'])
        esc = f'({k} {self.e(t, sc, d - 1)})'
        c = self.r.randrange(4)
        if c == 0:
            return f'({cc} (lambda ({k}) {self.e(t, sc, d - 1)}))'
        if c == 1:
            return f'({cc} (lambda ({k}) {esc}))'
        if c == 2:
            v = self.fresh()
            s2 = Scope(sc)
            s2.vars.append((v, INT, False))
            return (f'({cc} (lambda ({k}) (for-each (lambda ({v}) (if {self.e(BOOL, s2, d - 1)} ({k} {self.e(t, s2, d - 1)}))) '
                    f'{self.e(LIST, sc, d - 1)}) {self.e(t, sc, d - 1)}))')
        return f'({cc} (lambda ({k}) (begin (if {self.e(BOOL, sc, d - 1)} {esc}) {self.effect(sc, d - 1)} {self.e(t, sc, d - 1)})))'

    def wind(self, t, sc, d):
        i = self.n
        self.n += 1
        r = self.r

        def eff(s):
            show = f'(display "{s}{i} ")'
            c = r.random()
            if c > .2 + .02 * self.w['wind'] or d < 3:
                return show
            # a guard that does something itself: assigns, has its own extents, escapes or throws (a bounded number of times)
            c = r.randrange(5)
            if c == 0:
                return f'{show} {self.effect(sc, d - 2)}'
            if c == 1:
                return f'{show} {self.e(ANY, sc, d - 2)}'
            if c == 2 and self.w['catch']:
                return f"{show} (set! wn{i} (+ wn{i} 1)) (if (< wn{i} {r.randrange(1, 4)}) (throw '{r.choice('aab')} {self.leaf(INT, sc)}))"
            if c == 3:
                return f'{show} (set! wn{i} (+ wn{i} 1)) (if (< wn{i} {r.randrange(1, 4)}) (wk{i} {self.leaf(t, sc)}))'
            return f'{show} (dynamic-wind (lambda () (display "[")) (lambda () {self.effect(sc, d - 2)}) (lambda () (display "]")))'
        b, a, body = eff('<'), eff('>'), None
        if f'wn{i}' in a + b:
            s2 = Scope(sc)
            x = f'(dynamic-wind (lambda () {b}) (lambda () {self.bodyexpr(t, sc, d - 1)}) (lambda () {a}))'
            if f'wk{i}' in a + b:
                x = f'(call/cc (lambda (wk{i}) {x}))'
            if r.random() < .5:
                x = f'(begin {x} {x.replace("<" + str(i), "<" + str(i) + "b")})' if len(x) < 400 else x
            return f'(let ((wn{i} 0)) {x})'
        return (f'(dynamic-wind (lambda () {b}) (lambda () {self.bodyexpr(t, sc, d - 1)}) (lambda () {a}))')

    GUARDS = ['(define wcount 0)', '(define (wbefore) (display "<s "))', '(define (wafter) (display ">s "))',
              '(define (wonce th) (dynamic-wind wbefore th wafter))',
              '(define (wdeep n th) (if (< n 1) (th) (dynamic-wind wbefore (lambda () (wdeep (- n 1) th)) wafter)))',
              '(define (wcounted th) (dynamic-wind (lambda () (set! wcount (+ wcount 1)) (display wcount) (display "< ")) th '
              '(lambda () (set! wcount (+ wcount 1)) (display wcount) (display "> "))))',
              '(define (wtrip n th) (let ((left n)) (dynamic-wind (lambda () (set! left (- left 1)) (display "<t ") '
              "(if (= left 0) (throw 'trip n))) th (lambda () (display \">t \")))))"]

    def wind2(self, t, sc, d):
        """Extents made by shared helpers: the same guard procedures at several depths, entered again from each other's inside."""
        r = self.r
        i = self.n
        self.n += 1

        def extent(body):
            c = r.randrange(8)
            if c < 2:
                return f'(wonce (lambda () {body}))'
            if c < 4:
                return f'(wdeep {r.randrange(0, 4)} (lambda () {body}))'
            if c == 4:
                return f'(wcounted (lambda () {body}))'
            if c == 5:
                return f'(dynamic-wind wbefore (lambda () {body}) wafter)'
            if c == 6 and self.w['catch']:
                return f'(wtrip {r.randrange(1, 4)} (lambda () {body}))'
            return f'(wonce (lambda () (wdeep 1 (lambda () {body}))))'
        if r.random() < .4:
            return extent(self.bodyexpr(t, sc, d - 1))
        v, k, n = f'sv{i}', f'sk{i}', f'sn{i}'
        s2 = Scope(sc)
        s2.vars.append((n, INT, False))
        s3 = Scope(s2)
        s3.vars.append((v, t, True))
        one = extent(f'{self.effect(s2, d - 2)} (call/cc (lambda (c) (set! {k} c) {self.e(t, s2, d - 2)}))')
        jump = f'(set! {n} (+ {n} 1)) (if (< {n} {r.randrange(2, 4)}) ({k} {self.e(t, s3, d - 2)}))'
        two = f'{jump} {v}'
        if r.random() < .8:
            two = extent(f'{self.effect(s3, d - 2)} {two}')
        x = f'(let (({v} {one})) {two})'
        if self.w['catch'] and r.random() < .4:
            x = (f"(catch #t (lambda () {x}) (lambda (key . rest) (display (if (memq key '(a b c ab abc A oops zap trip)) key 0)) "
                 f'{self.leaf(t, sc)}))')
        return f'(let (({k} #f) ({n} 0)) {x})'

    def catch(self, t, sc, d):
        r = self.r
        tag = r.choice(["'a", "'b", "#t", "'c", "'ab", "'abc"])
        i = self.n
        self.n += 1
        c = r.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 5])
        if d > 3 and r.random() < .12:
            return self.catch2(t, sc, d)

        def throw():
            a = ' '.join(self.e(r.choice([INT, INT, SYM, LIST]), sc, d - 2) for _ in range(r.choice([0, 1, 1, 1, 2, 3])))
            return f"(throw '{r.choice(['a', 'a', 'b', 'ab', 'abc', 'A'])} {a})"
        if c == 0:
            body = self.e(t, sc, d - 1)
        elif c == 1:
            body = throw()
        elif c == 2:
            body = f'(begin (if {self.e(BOOL, sc, d - 1)} {throw()}) {self.e(t, sc, d - 1)})'
        elif c == 3:
            body = f'(+ {self.e(INT, sc, d - 1)} {throw()})'
        elif c == 5:     # thrown after whatever went before
            v = self.fresh()
            s5 = Scope(sc)
            s5.vars.append((v, t, True))
            body = f'(let (({v} {self.e(t, sc, d - 1)})) {self.effect(s5, d - 2)} (if {self.test(s5, d - 2)} {throw()}) {self.e(t, s5, d - 2)})'
        else:      # left through guards, one of which throws as well
            body = throw() if r.random() < .6 else self.e(t, sc, d - 2)
            n = r.randrange(1, 3)
            at = r.randrange(n)
            for j in range(n):
                body = (f'(dynamic-wind (lambda () (display "[{i}.{j} ")) (lambda () {body}) (lambda () (display "]{i}.{j} ")'
                        + (f' {throw()}' if j == at else '') + '))')
        h = f'key{i}'
        s2 = Scope(sc)
        s2.vars.append((h, SYM, False))
        # the key and the arguments of a built-in error are not specified
        shown = f"(display (if (memq {h} '(a b c ab abc A oops zap trip)) (cons {h} rest{i}) 'builtin))" if r.random() < .6 else ''
        again = ''
        if r.random() < .15:
            again = f"(if {self.e(BOOL, s2, d - 2)} (throw {r.choice([h, chr(39) + 'a', chr(39) + 'c'])} {self.intlit()}))"
        fixed = f"(if (memq {h} '(a b c ab abc A oops zap trip)) {h} 'builtin)"
        return (f'(catch {tag} (lambda () {body}) (lambda ({h} . rest{i}) {shown} '
                f'(let (({h} {fixed})) {again} {self.effect(s2, d - 1)} {self.e(t, s2, d - 1)})))')

    def catch2(self, t, sc, d):
        """A continuation captured in the extent of a catch (or outside one), resumed from outside it, or from inside another."""
        r = self.r
        i = self.n
        self.n += 1
        v, k, n = f'cv{i}', f'ck{i}', f'cn{i}'
        s2 = Scope(sc)
        s2.vars.append((n, INT, False))
        s3 = Scope(s2)
        s3.vars.append((v, t, True))
        tags = ["'a", "'a", "'b", '#t', "'ab"]

        def caught(body, s):
            h = f'(lambda (key . rest) (display "h{self.n} ") {self.e(t, s, d - 3)})'
            self.n += 1
            x = f'(catch {r.choice(tags)} (lambda () {body}) {h})'
            if r.random() < .25:
                x = f'(dynamic-wind (lambda () (display "i ")) (lambda () {x}) (lambda () (display "o ")))'
            return x

        def maybe(s):
            return f"(if {r.choice([f'(= {n} {r.randrange(0, 3)})', f'(< {n} {r.randrange(1, 3)})', self.e(BOOL, s, d - 3)])} (throw '{r.choice(['a', 'a', 'b', 'ab', 'zap'])} {self.leaf(INT, s)}))"
        one = f'(call/cc (lambda (c) (set! {k} c) {self.e(t, s2, d - 3)}))'
        one = f'(let (({v} {one})) {maybe(s3)} {v})'
        for _ in range(r.choice([0, 1, 1, 2])):
            one = caught(one, s2)
        two = f'(set! {n} (+ {n} 1)) (if (< {n} {r.randrange(2, 4)}) ({k} {self.e(t, s3, d - 3)})) {maybe(s3)} {v}'
        for _ in range(r.choice([0, 1, 1, 2])):
            two = caught(two, s3)
        x = f'(let (({v} {one})) {maybe(s3)} {two})'
        if r.random() < .7:
            x = caught(x, s2)
        return f'(let (({k} #f) ({n} 0)) {x})'

    def delay(self, t, sc, d):
        p = f'p{self.n}'
        self.n += 1
        n = self.r.randrange(1, 3)
        return (f'(let (({p} (delay (begin {self.effect(sc, d - 1)} {self.e(t, sc, d - 1)})))) '
                + f'(force {p}) ' * (n - 1) + f'(force {p}))')

    def generator(self, t, sc, d):
        """Re-entrant use: resume a saved continuation a bounded number of times."""
        i = self.n
        self.n += 1
        k, n = f'gk{i}', f'gn{i}'
        s2 = Scope(sc)
        s2.vars.append((n, INT, False))
        lim = self.r.randrange(1, 4)
        v = f'gv{i}'
        s3 = Scope(s2)
        s3.vars.append((v, t, True))
        return (f'(let (({k} #f) ({n} 0)) (let (({v} (call/cc (lambda (c) (set! {k} c) {self.e(t, s2, d - 1)})))) '
                f'(set! {n} (+ {n} 1)) {self.effect(s3, d - 1)} (if (< {n} {lim}) ({k} {self.e(t, s3, d - 1)})) {v}))')

    def error_expr(self, sc):
        r = self.r
        return r.choice(['(car 5)', '(vector-ref (vector 1 2) 7)', '(undefined-fn 1)', 'undefined-var', "(throw 'oops 1)",
                         '((lambda (x) x))', '(5 5)', "('car '(1 2))", "('(lambda (x) x) 1)", '((quote quote) undefined-name)', "(let ((f '(display 1))) (f))",
                         "(let ((f 'display)) (f 2))", '("str" 1)', "((list car) '(1))", '(#t 1)', "(#(1 2) 0)", '(string-length 7)', "(throw 'zap)", '(length 3)', '(list-tail (list 1) 5)'])

    # ---- top level
    def gcall(self, t, sc, d):
        c = [f for f in self.fns if f[2] == t]
        if not c:
            return self.op(t, sc, d - 1)
        n, at, _ = self.r.choice(c)
        return f'({n} ' + ' '.join(self.e(a, sc, d - 1) for a in at) + ')'

    def macrocall(self, t, sc, d):
        c = [f for f in self.macros if f[1] == t]
        if not c:
            return self.op(t, sc, d - 1)
        n, _, mk = self.r.choice(c)
        return mk(sc, d)

    def topfn(self):
        r = self.r
        name = f'f{self.n}'
        self.n += 1
        ps = self.params(r.randrange(0, 4))
        t = r.choice(TYPES)
        s2 = Scope(self.glob)
        s2.vars += [(v, ty, True) for v, ty in ps]
        self.fuel = 40
        body = self.bodyexpr(t, s2, 4)
        if r.random() < .08:
            # a definition or an assignment that replaces a built-in procedure, for the calls before it too
            b, ar, rt = r.choice([('abs', INT, INT), ('even?', INT, BOOL), ('reverse', LIST, LIST), ('length', LIST, INT), ('cadr', LIST, INT),
                                  ('zero?', INT, BOOL), ('quotient', None, INT), ('string-length', STR, INT), ('null?', LIST, BOOL)])
            s2 = Scope(self.glob)
            p = 'pz'
            s2.vars.append((p, ar or INT, True))
            self.fuel = 20
            nb = self.e(rt, s2, 3)
            if b not in nb:
                sig = p if ar else p + ' pw'
                return r.choice([f'(define ({b} {sig}) {nb})', f'(define {b} (lambda ({sig}) {nb}))', f'(set! {b} (lambda ({sig}) {nb}))',
                                 f'(define {b} (let ((old {b})) (lambda ({sig}) (if (equal? {p} {self.leaf(ar or INT, self.glob)}) {nb} (old {sig})))))'])
        self.fns.append((name, [ty for _, ty in ps], t))
        if r.random() < 0.7:
            return f'(define ({name}{"".join(" " + v for v, _ in ps)}) {body})'
        return f'(define {name} (lambda ({" ".join(v for v, _ in ps)}) {body}))'

    def topvar(self):
        t = self.r.choice(TYPES)
        name = f'g{self.n}'
        self.n += 1
        self.fuel = 25
        if self.r.random() < .5:
            c = self.r.choice(['x', 'y', 'z', 'n', 'lst', 'acc'])
            old = [ty for n, ty, _ in self.glob.vars if n == c]
            name, t = c, old[0] if old else t
        x = f'(define {name} {self.e(t, self.glob, 3)})'
        self.glob.vars.append((name, t, True))
        return x

    def topexpr(self, depth=5, fuel=60):
        self.fuel = fuel
        return self.e(self.r.choice(TYPES), self.glob, depth)

    def program(self, n=None):
        r = self.r
        out = list(self.GUARDS) if self.w['wind'] else []
        for _ in range(n or r.randrange(3, 9)):
            c = r.random()
            if c < 0.2:
                out.append(self.topvar())
            elif c < 0.4:
                out.append(self.topfn())
            elif c < 0.5:
                self.fuel = 30
                out.append(self.effect(self.glob, 4))
            else:
                out.append(self.topexpr())
        names = [n for n, t, _ in self.glob.all() if t != FN]
        if names:
            out.append(f'(list {" ".join(names)})')
        return out
