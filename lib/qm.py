"""Programs about quasiquotation and macros."""
from gen import *


class QM(Gen):
    """Adds macro definitions and quasiquote templates to the core generator."""

    def __init__(self, rng, **weights):
        w = dict(macro=12)
        w.update(weights)
        super().__init__(rng, **w)
        self.intmacros = []        # (name, number of int parameters, rest?) of macros over int expressions
        self.nt = 0

    # ---------------------------------------------------------- quasiquote templates
    def tatom(self):
        r = self.r
        return r.choice([self.intlit(), self.symname(), self.strlit(), '#t', '#f', '()', '#\\a', "'q", '(quote z)', '2.5', ':k'])

    def tmpl(self, sc, d, level=1, invec=False):
        """Text of a template; unquotes at level 1 hold expressions."""
        r = self.r
        c = r.random()
        if d <= 0 or c < .25:
            return self.tatom()
        if c < .45:
            return self.unq(sc, d, level)
        if c < .55 and level < 3:
            return '`' + self.tmpl(sc, d - 1, level + 1)
        if c < .65:
            return '#(' + ' '.join(self.elem(sc, d - 1, level) for _ in range(r.randrange(0, 4))) + ')'
        n = r.randrange(0, 5)
        xs = [self.elem(sc, d - 1, level) for _ in range(n)]
        if xs and r.random() < .2:
            # a dotted tail; after a splice of the last element it has to follow a list
            tail = r.choice([self.tatom(), self.unq(sc, d - 1, level)])
            if not tail.startswith(("'", '(quote', '`')):
                return '(' + ' '.join(xs) + ' . ' + tail + ')'
        return '(' + ' '.join(xs) + ')'

    def unq(self, sc, d, level):
        if level == 1:
            return ',' + self.uexpr(sc, d)
        if level == 2 and self.r.random() < .2:
            return ',,@' + self.lexpr(sc, d)
        return ',' + self.tmpl(sc, d - 1, level - 1)

    def elem(self, sc, d, level):
        r = self.r
        if r.random() < .2:
            if level == 1:
                return ',@' + self.lexpr(sc, d)
            if level == 2 and r.random() < .2:
                return ',@,@' + self.lexpr(sc, d)
            if r.random() < .5:
                return ',@' + self.tmpl(sc, d - 1, level - 1)
        return self.tmpl(sc, d, level)

    def uexpr(self, sc, d):
        r = self.r
        vs = self.vars_of(sc, r.choice(TYPES))
        if vs and r.random() < .4:
            return r.choice(vs)
        self.nt += 1
        c = r.randrange(6)
        if c == 0:
            return f'(begin (display {self.nt}) {self.e(r.choice(TYPES), sc, d)})'
        if c == 1:
            return f'(car `(,{self.e(INT, sc, d)} ,@{self.lexpr(sc, d - 1)}))'
        if c == 2:
            return '`' + self.tmpl(sc, d - 1, 1)
        return '(begin ' + self.e(r.choice(TYPES), sc, d) + ')' if r.random() < .3 else self.paren(self.e(r.choice(TYPES), sc, d))

    def paren(self, x):
        """An expression that can follow a comma."""
        return x if not x.startswith('@') else f'(begin {x})'

    def lexpr(self, sc, d):
        r = self.r
        vs = self.vars_of(sc, LIST) + self.vars_of(sc, DLIST)
        if vs and r.random() < .5:
            return r.choice(vs)
        return r.choice(["'()", "(list)", '(list ' + self.e(INT, sc, d - 1) + ')', "'(a (b . c))", f"(map (lambda (q) `(q ,q)) {self.leaf(LIST, sc)})",
                         f'(list {self.e(DLIST, sc, d - 1)} {self.e(STR, sc, d - 1)})', f'(reverse {self.e(LIST, sc, d - 1)})'])

    def qqform(self, sc, d=4):
        self.fuel = 30
        return '`' + self.tmpl(sc, d)

    # ---------------------------------------------------------- macros
    def holes(self, n):
        """Parameters whose names, unquoted, stand for expressions in a template."""
        r = self.r
        names = []
        for _ in range(n):
            p = r.choice(['a', 'b', 'e', 'x', 'y', 'form', 'then'])
            while p in names:
                p += '1'
            names.append(p)
        return names

    def template_macro(self):
        r = self.r
        name = self.mname()
        n = r.randrange(0, 4)
        ps = self.holes(n)
        rest = r.random() < .35
        t = r.choice([INT, INT, LIST, STR, BOOL, DLIST])
        s = Scope(self.glob)
        s.vars += [(',' + p, INT, False) for p in ps]
        save = self.w['qq'], self.w['macro']
        self.w['qq'] = 0
        if r.random() < .6:
            self.w['macro'] = 0
        self.fuel = 25
        body = self.e(t, s, 3)
        self.w['qq'], self.w['macro'] = save
        restp = ''
        if rest:
            restp = r.choice(['rest', 'more', 'xs'])
            body = {INT: f'(+ {body} ,@{restp})', LIST: f'(append {body} (list ,@{restp}))', DLIST: f"(cons '(,@{restp}) {body})",
                    BOOL: f'(begin ,@{restp} {body})', STR: f"(begin (display (list ,@{restp} '(,@{restp}))) {body})"}[t]
        c = r.random()
        sig = ' '.join(ps) + (f' . {restp}' if rest else '')
        if c < .6:
            d = f'(define-macro ({name}{" " + sig if sig else ""}) `{body})'
        elif c < .8:
            lam = restp if rest and not ps else f'({sig})'
            d = f'(define-macro {name} (lambda {lam} `{body}))'
        else:
            # several expressions in the transformer; only the last one is the expansion
            h = self.nt
            d = f"(define-macro ({name}{' ' + sig if sig else ''}) (define h{h} (list {' '.join(ps)})) (length h{h}) `{body})"

        def mk(sc, dd):
            k = n + (r.randrange(0, 3) if rest else 0)
            return f'({name}' + ''.join(' ' + self.e(INT, sc, dd - 1) for _ in range(k)) + ')'
        self.add(name, t, mk)
        self.intmacros.append((name, n, rest))
        return [d]

    def mname(self):
        r = self.r
        if self.macros and r.random() < .15:      # a definition that replaces another
            name = r.choice(self.macros)[0]
            self.macros = [m for m in self.macros if m[0] != name]
            self.intmacros = [m for m in self.intmacros if m[0] != name]
            return name
        self.nt += 1
        return f'm{self.nt}'

    def add(self, name, t, mk):
        self.macros.append((name, t, mk))

    def classic(self):
        """Macros of the kinds programs have: control, binding, assignment, recursion, expansion-time computation."""
        r = self.r
        name = self.mname()
        E = lambda t, sc, d: self.e(t, sc, d - 1)
        k = r.randrange(14)
        self.nt += 1
        u = self.nt
        pre = []
        t = INT
        if k == 0:
            d = f'(define-macro ({name} c . body) `(if ,c (begin ,@body) \'none))'
            mk = lambda sc, dd: f'(if (eq? ({name} {E(BOOL, sc, dd)} {self.effect(sc, dd - 1)} {E(SYM, sc, dd)}) \'none) 1 2)'
        elif k == 1:
            d = f"(define-macro ({name} . xs) (cond ((null? xs) #f) ((null? (cdr xs)) (car xs)) (else `(let ((t{u} ,(car xs))) (if t{u} t{u} ({name} ,@(cdr xs)))))))"
            t = BOOL
            mk = lambda sc, dd: f'({name}' + ''.join(' ' + E(BOOL, sc, dd) for _ in range(r.randrange(0, 4))) + ')'
        elif k == 2:
            d = f'(define-macro ({name} a b) `(let ((tmp{u} ,a)) (set! ,a ,b) (set! ,b tmp{u})))'

            def mk(sc, dd):
                a, b = f'p{u}', f'q{u}'
                return f'(let (({a} {E(INT, sc, dd)}) ({b} {E(INT, sc, dd)})) ({name} {a} {b}) (- {a} {b}))'
        elif k == 3:
            d = f'(define-macro ({name} c . body) `(let loop{u} () (if ,c (begin ,@body (loop{u})))))'

            def mk(sc, dd):
                i, a = f'i{u}', f'a{u}'
                s = Scope(sc)
                s.vars += [(i, INT, False), (a, INT, True)]
                return f'(let (({i} 0) ({a} 0)) ({name} (< {i} {r.randrange(0, 4)}) (set! {a} (+ {a} {E(INT, s, dd)})) (set! {i} (+ {i} 1))) {a})'
        elif k == 4:
            d = f'(define-macro ({name} v . n) `(begin (set! ,v (+ ,v ,(if (null? n) 1 (car n)))) ,v))'

            def mk(sc, dd):
                vs = [n for n, ty, w in sc.all() if ty == INT and w and not n.startswith(',')]
                if not vs:
                    return self.leaf(INT, sc)
                return f'({name} {r.choice(vs)}{r.choice(["", " 2", " " + E(INT, sc, dd)])})'
        elif k == 5:
            # the arguments are data of the transformer
            t = LIST
            d = f"(define-macro ({name} . form) (list 'quote (map (lambda (x) (if (pair? x) (length x) 0)) form)))"
            mk = lambda sc, dd: f'({name} ' + ' '.join(r.choice(['a', '(+ 1 2)', '(car)', '1', '()', '((x y) z w)']) for _ in range(r.randrange(0, 4))) + ')'
        elif k == 6:
            pre = [f'(define (h{u} x n) (if (= n 0) x (list \'+ 1 (h{u} x (- n 1)))))']
            d = f'(define-macro ({name} x n) (h{u} x n))'
            mk = lambda sc, dd: f'({name} {E(INT, sc, dd)} {r.randrange(0, 5)})'
        elif k == 7:
            # recursion over the syntax
            d = f"(define-macro ({name} n x) (if (= n 0) ''() `(cons ,x ({name} ,(- n 1) ,x))))"
            t = LIST
            mk = lambda sc, dd: f'({name} {r.randrange(0, 5)} {E(INT, sc, dd)})'
        elif k == 8:
            # a macro that defines macros
            pre = [f"(define-macro (def{u} name op) `(define-macro (,name . args) (cons ',op args)))"]
            d = f'(def{u} {name} {r.choice(["+", "-", "max", "list"])})'
            if d.endswith('list)'):
                t = LIST
            mk = lambda sc, dd: f'({name} {E(INT, sc, dd)} {E(INT, sc, dd)})'
        elif k == 9:
            # nested quasiquotation in a transformer
            pre = [f"(define-macro (def{u} name v) `(define-macro (,name x) `(+ ,x ,,v)))"]
            d = f'(def{u} {name} {self.intlit()})'
            mk = lambda sc, dd: f'({name} {E(INT, sc, dd)})'
        elif k == 10:
            # a binding construct
            d = f'(define-macro ({name} bs . body) `((lambda ,(map car bs) ,@body) ,@(map cadr bs)))'

            def mk(sc, dd):
                s = Scope(sc)
                v = [self.fresh() for _ in range(r.randrange(0, 3))]
                v = list(dict.fromkeys(v))
                b = ' '.join(f'({x} {E(INT, sc, dd)})' for x in v)
                s.vars += [(x, INT, True) for x in v]
                return f'({name} ({b}) {self.e(INT, s, dd - 1)})'
        elif k == 11:
            # expands to definitions
            d = f'(define-macro ({name} n v) `(define (,n) ,v))'
            mk = lambda sc, dd: (lambda f: f'(let () ({name} {f} {E(INT, sc, dd)}) (+ ({f}) ({f})))')(f'df{self.nt}')
        elif k == 12:
            # an expansion without a list: a constant or a variable
            d = f"(define-macro ({name} x) (if (symbol? x) x (if (number? x) (+ x 1) 0)))"
            mk = lambda sc, dd: f'({name} {r.choice([self.leaf(INT, sc), E(INT, sc, dd)])})'
        else:
            # shows how often and when arguments are evaluated
            d = f'(define-macro ({name} a b) `(let ((v{u} ,b)) (+ ,a v{u} ,a)))'
            mk = lambda sc, dd: f'({name} (begin (display "<") {E(INT, sc, dd)}) (begin (display ">") {E(INT, sc, dd)}))'
        self.add(name, t, mk)
        return pre + [d]

    def special(self):
        """Macro names in positions where they are not calls, shadowing, wrong calls."""
        r = self.r
        out = []
        if not self.intmacros:
            return self.template_macro()
        name, n, rest = r.choice(self.intmacros)
        args = ' '.join(self.intlit() for _ in range(n))
        c = r.randrange(16)
        if c == 0:
            out.append(f"(list '({name} {args}) '{name} `({name} ,(+ 1 2)) (quote (a ({name} {args}) . {name})))")
        elif c == 1:
            out.append(f"(let (({name} (lambda l (list 'local l)))) ({name} {args}))")
        elif c == 2:
            out.append(f"((lambda ({name}) ({name} {args})) list)")
        elif c == 3:
            k = max(0, n - 1) if r.random() < .5 and n else n + (1 if not rest else 0)
            if k != n:
                call = f'({name} ' + ' '.join(['1'] * k) + ')'
                out.append(f"(catch #t (lambda () {call}) (lambda (k . a) (list 'caught (symbol? k))))")
                out.append(call)
        elif c == 4:
            f = f'late{self.nt}'
            out += [f'(define (u{self.nt} x) (list ({f} x) x))', f"(define-macro ({f} a) `(list ,a ',a))", f'(u{self.nt} 3)',
                    f"(define-macro ({f} a) `(vector ',a ,a))", f'(u{self.nt} 4)', f'(define ({f} a) (list \'procedure a))', f'(u{self.nt} 5)']
        elif c == 5:
            out.append(f"(map (lambda (q) ({name} {args})) '(1 2))")
        elif c == 6:
            out.append(f"(let loop ((i 0)) (if (< i 3) (begin (display ({name} {args})) (loop (+ i 1))) 'end))")
        elif c == 7:
            out.append(f"(let (({'x'} 5)) (define-macro (inner e) `(* 2 ,e)) (list (inner 4) (inner (+ x 1))))")
            out.append("(catch #t (lambda () (inner 1)) (lambda (k . a) 'unbound))")
        elif c == 8:
            out.append(f"(catch #t (lambda () (map {name} '(1 2))) (lambda (k . a) 'not-a-procedure))")
        elif c == 9:
            self.nt += 1
            out += [f"(define-macro (bad{self.nt} x) (car x))", f"(catch #t (lambda () (bad{self.nt} 5)) (lambda (k . a) 'expander-error))",
                    f"(bad{self.nt} (+ 1))" if r.random() < .3 else f"(bad{self.nt} (5))"]
        elif c == 10:
            # a local variable of any enclosing scope hides the macro
            b = r.choice([f'(let ((y 1)) ({name} {args}))', f'(let loop ((i 0)) (if (< i 1) (loop (+ i 1)) ({name} {args})))', f'((lambda () ({name} {args})))',
                          f'(do ((i 0 (+ i 1)) (r 0 ({name} {args}))) ((= i 2) r))', f'(map (lambda (q) ({name} {args})) (list 1 2))',
                          f'(let* ((z 2) (w ({name} {args}))) w)', f'(begin (define w ({name} {args})) w)'])
            out.append(r.choice([f'(let (({name} list)) {b})', f'((lambda ({name}) {b}) list)', f'(letrec (({name} (lambda l l))) {b})', f'(let* (({name} list)) {b})',
                                 f'(let () (define ({name} . l) l) {b})', f'(let () (define {name} list) {b})', f'(do (({name} list {name}) (k 0 (+ k 1))) ((= k 1) {b}))',
                                 f'(let lp ((k 0) ({name} list)) (if (= k 0) (lp 1 {name}) {b}))']))
            out.append(f'({name} {args})')
        elif c == 11:
            # a local macro of the same name, seen in inner scopes and nowhere else
            b = r.choice([f'({name} 5)', f'(let ((y 1)) ({name} y))', f'(let loop ((i 0)) (if (< i 2) (loop (+ i 1)) ({name} i)))', f'((lambda (q) ({name} q)) 7)'])
            m = r.choice([f"(define-macro ({name} a) `(list 'inner ,a ',a))", f"(define-macro {name} (lambda (a) (list 'quote (list 'inner a))))"])
            out.append(r.choice([f'(let () {m} {b})', f'(define (lf{self.nt} p) {m} {b})', f'(let ((y 3)) {m} (list {b} {b}))', f'((lambda () {m} {b}))']))
            if out[-1].startswith('(define'):
                out.append(f'(lf{self.nt} 1)')
            out.append(f'({name} {args})')
        elif c == 12:
            # a local macro named like variables of the scopes around it
            vs = [n for n, t, _ in self.glob.all() if t != FN]
            v = r.choice(vs) if vs else 'x'
            out.append(f"(list (let () (define-macro ({v} a) `(* 2 ,a)) (let ((u 4)) ({v} u))) (let (({v} 8)) (let () (define-macro {v} (lambda l ''m)) (set! x5 ({v} 1))) {v}))".replace('(set! x5 ', '(begin '))
            if vs:
                out.append(v)
        elif c == 13:
            # what the transformer sees are the variables of its definition
            out.append(f"(define mv{self.nt} 'global)")
            out.append(f"(define-macro (ms{self.nt} a) (list 'list (list 'quote mv{self.nt}) a 'mv{self.nt}))")
            out.append(f"(let ((mv{self.nt} 'local)) (ms{self.nt} mv{self.nt}))")
            out.append(f"(set! mv{self.nt} 'assigned)")
            out.append(f"(ms{self.nt} 1)")
            out.append(f"(let ((c 'outer)) (define-macro (lm a) (list 'list (list 'quote c) a 'c)) (let ((c 'inner)) (lm (begin (set! c 'set) c))))")
        elif c == 14:
            # a transformer owns the list of its rest arguments: what it does to it does not change the program
            self.nt += 1
            m = f'mr{self.nt}'
            k = r.choice([0, 0, 1, 2])
            fixed = ' '.join(f'p{j}' for j in range(k))
            sig = r.choice([f'({m} {fixed} . more)', f'{m} (lambda ({fixed} . more)' if k else f'{m} (lambda more'])
            change = r.choice(["(if (pair? more) (set-car! more (list '+ (car more) 1)))", "(if (pair? more) (set-cdr! more '()))", "(if (and (pair? more) (pair? (cdr more))) (set-cdr! (cdr more) (list 7)))",
                               "(if (pair? more) (begin (set-car! more 9) (set! more (cdr more))))", '(if (pair? more) (set-cdr! (last-pair more) (list 8)))', "(if (pair? more) (set-car! (last-pair more) ''q))"])
            d = f'(define-macro {sig} {change} (cons \'list (list {fixed} (list \'quote more) (cons \'list more))))'
            out.append(d + (')' if sig.startswith(m) else ''))
            ops = ' '.join(r.choice(['1', 'x', '(+ x 2)', '"s"', "'(a b)"]) for _ in range(k + r.randrange(0, 4)))
            out += [f'(define (um{self.nt} x) ({m} {ops}))', f'(um{self.nt} 1)', f'(list (um{self.nt} 2) (um{self.nt} 2))',
                    f"(let loop ((x 0) (l (list))) (if (< x 3) (loop (+ x 1) (cons ({m} {ops}) l)) l))", f"(let ((form '({m} {ops})) (x 5)) (define a (eval (list 'let '((x 6)) form))) (list a form))"]
        else:
            out.append(f"(define v{self.nt} ({name} {args}))")
            out.append(f"v{self.nt}")
        return out

    def program(self, n=None):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 3)):
            out.append(self.topvar())
        for _ in range(n or r.randrange(4, 10)):
            c = r.random()
            if c < .22:
                out += self.template_macro()
            elif c < .44:
                out += self.classic()
            elif c < .54:
                out += self.special()
            elif c < .66:
                out.append(self.qqform(self.glob))
            elif c < .74:
                out.append(self.topvar())
            elif c < .82:
                out.append(self.topfn())
            else:
                out.append(self.topexpr(4, 40))
        names = [n for n, t, _ in self.glob.all() if t != FN]
        if names:
            out.append(f'(list {" ".join(names)})')
        return out
