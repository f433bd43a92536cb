"""Programs that evaluate, expand and examine programs."""
from gen import *
from qm import QM


class RM(QM):
    """Adds eval, macroexpand, defined?, gensym, procedure-name and variable objects to the macro programs."""

    def program(self, n=None):
        r = self.r
        self.cells = []
        out = [self.topvar() for _ in range(r.randrange(1, 3))]
        out += self.template_macro()
        for _ in range(n or r.randrange(5, 12)):
            c = r.random()
            if c < .08:
                out += self.template_macro()
            elif c < .16:
                out += self.classic()
            elif c < .24:
                out.append(self.topvar() if r.random() < .6 else self.topfn())
            elif c < .5:
                out += self.evals()
            elif c < .65:
                out += self.expansions()
            elif c < .75:
                out += self.definedness()
            elif c < .82:
                out += self.fresh_symbols()
            elif c < .89:
                out += self.names()
            else:
                out += self.variables()
        out += [f'(list {" ".join(cell_show(c) for c in self.cells)})'] if self.cells else []
        names = [n for n, t, _ in self.glob.all() if t != FN]
        out.append(f'(list {" ".join(names)})')
        return out

    def globals(self):
        return [n for n, t, _ in self.glob.all() if t != FN]

    # ---- eval
    def evals(self):
        r = self.r
        x = self.topexpr(4, 30)
        gs = self.globals()
        g = r.choice(gs)
        self.nt += 1
        u = self.nt
        c = r.randrange(13)
        if c == 0:
            return [f"(eval '{x})"]
        if c == 1:      # the caller's variables are not seen
            b = ' '.join(f"({v} 'local)" for v in r.sample(gs, min(len(gs), r.randrange(1, 4))))
            return [f"(let ({b}) (eval '{x}))", f"(let ({b}) (list (eval '{g}) {g} (eval '(list {g} '{g}))))"]
        if c == 2:      # assignment and definition reach the global variables
            return [f"(let (({g} 'local)) (eval '(set! {g} {x})) {g})", g] if r.random() < .5 else \
                [f"(let ((ev{u} 'local)) (eval '(define ev{u} {x})) ev{u})", f'ev{u}', f"(eval 'ev{u})"]
        if c == 3:
            return [f"(list (eval (list 'quote '{self.datum(3)})) (eval ''{self.datum(2)}) (eval (eval '''{self.symname()})))"]
        if c == 4:
            return [f"(define th{u} (eval '(lambda (p{u}) (list p{u} {x}))))", f'(th{u} 1)', f"(let (({g} 'local)) (th{u} {g}))"]
        if c == 5:
            y = self.topexpr(3, 20)
            return [f"(map eval (list '{y} ''{self.symname()} '{g}))", f"(apply eval (list '{y}))"]
        if c == 6:
            return [f"(catch #t (lambda () (eval '{x})) (lambda (k . a) 'caught))",
                    f"(catch #t (lambda () (let ((hidden{u} 1)) (eval 'hidden{u}))) (lambda (k . a) 'unbound))"]
        if c == 7:
            return [f"(define d{u} '{x})", f'(eval d{u})', f'(eval d{u})', f"(equal? d{u} '{x})"]
        if c == 8:      # a program made of parts
            return [f"(eval (list 'let (list (list 'a{u} '{self.e(INT, self.glob, 2)})) (list '+ 'a{u} (list '* 2 'a{u}))))",
                    f"(eval `(let ((a{u} ,{self.e(INT, self.glob, 2)})) (list a{u} ',{g} {g})))"]
        if c == 9:
            return [f"(eval '(begin (define m{u} {x}) (define (q{u} z) (list z m{u}))))", f"(q{u} 'z)", f'm{u}']
        if c == 10:     # from within extents
            return [f"(dynamic-wind (lambda () (display \"<\")) (lambda () (eval '{x})) (lambda () (display \">\")))",
                    f"(call/cc (lambda (k) (for-each (lambda (f) (eval f)) (list '(display 1) '{x})) (k 'out)))",
                    f"(catch 'stop (lambda () (eval '(begin (display 1) (throw 'stop {self.e(INT, self.glob, 2)})))) (lambda a a))"]
        if c == 11:
            return [f"(let loop ((i 0) (l '())) (if (< i {r.choice([2, 3, 10])}) (loop (+ i 1) (cons (eval (list '+ i '{self.e(INT, self.glob, 2)})) l)) l))"]
        return [f"(define (ap{u} f . more) (eval (cons f (map (lambda (y) (list 'quote y)) more))))", f"(ap{u} 'list 1 '(2 3) 'a)", f"(ap{u} '(lambda (a b) (list b a)) '(x) {g})"]

    # ---- macroexpand
    def expansions(self):
        r = self.r
        self.nt += 1
        u = self.nt
        c = r.randrange(8)
        ms = [n for n, _, _ in self.macros]
        if c < 3 and self.macros:
            name, t, mk = r.choice(self.macros)
            self.fuel = 20
            x = mk(self.glob, 3)
            if not x.startswith('('):
                return [x]
            return [r.choice([f"(macroexpand '{x})", f"(macroexpand-1 '{x})", f"(eval (macroexpand '{x}))", f"(eval (macroexpand-1 '{x}))",
                              f"(list (eval '{x}) (eval (macroexpand '{x})))", f"(let (({name} list)) (macroexpand-1 '{x}))",
                              f"(macroexpand '(list {x} {x}))", f"(macroexpand-1 (list 'begin '{x}))", f"(begin (macroexpand '{x}) (macroexpand-1 '{x}))",
                              f"(eval (list 'quote (macroexpand '{x})))"])]
        if c == 3:      # how far
            k = r.randrange(0, 5)
            out = [f"(define ex{u} 0)", f"(define-macro (st{u} n x) (set! ex{u} (+ ex{u} 1)) (if (= n 0) x `(st{u} ,(- n 1) (cons ,n ,x))))"]
            out += [r.choice([f"(macroexpand '(st{u} {k} '()))", f"(macroexpand-1 '(st{u} {k} '()))", f"(st{u} {k} '())", f"(eval (macroexpand-1 '(st{u} {k} '())))",
                              f"(macroexpand-1 (macroexpand-1 '(st{u} {k} '())))", f"(macroexpand '(list (st{u} {k} '())))"]) for _ in range(3)]
            return out + [f'ex{u}']
        if c == 4:
            return [f"(macroexpand '{self.datum(3)})", f"(macroexpand-1 '{self.datum(2)})", f"(define q{u} '(car '(1)))", f'(eq? q{u} (macroexpand q{u}))', f'(eq? q{u} (macroexpand-1 q{u}))']
        if c == 5:      # a definition changes what a form means
            out = [f"(define-macro (tw{u} x) `(list 'one ,x))", f"(macroexpand '(tw{u} 1))", f"(define-macro (tw{u} x) `(list 'two ,x))", f"(macroexpand '(tw{u} 1))", f'(tw{u} 1)']
            return out + [f"(define (tw{u} x) (list 'procedure x))", f"(macroexpand '(tw{u} 1))", f'(tw{u} 1)']
        if c == 6:
            return [f"(define-macro (er{u} x) (if (pair? x) (car x) (throw 'no-pair x)))",
                    f"(catch #t (lambda () (macroexpand '(er{u} {r.choice(['5', '(list 1)', '(er%d 5)' % u, '((er%d (1)))' % u])}))) (lambda (k . a) (list k a)))",
                    f"(catch #t (lambda () (macroexpand-1 '(er{u}{r.choice(['', ' 1 2'])}))) (lambda (k . a) 'caught))", f"(macroexpand '(er{u} ((a b) c)))"]
        return [f"(define-macro (at{u} x) (cond ((number? x) (+ x 1)) ((symbol? x) `(quote ,x)) (else (list 'at{u} (car x)))))",
                f"(map macroexpand '((at{u} 1) (at{u} foo) (at{u} (5 6)) (at{u} ((q))) at{u} (at 1)))", f"(map macroexpand-1 '((at{u} 1) (at{u} (5 6)) (at{u} ((7 8)))))"]

    # ---- defined?
    def definedness(self):
        r = self.r
        self.nt += 1
        u = self.nt
        n = f'dn{u}'
        gs = self.globals()
        c = r.randrange(6)
        probe = f"(defined? '{n})"
        if c == 0:
            return [f"(map defined? '({' '.join(r.sample(gs, min(3, len(gs))) + [n, r.choice([m[0] for m in self.macros] or ['car']), 'car', 'no-such-name', 'map'])}))"]
        how = r.choice([f'(define {n} {self.topexpr(2, 10)})', f'(define ({n} . a) a)', f"(eval '(define {n} #f))", f'(define-macro ({n} x) x)', f'(begin (define {n} 1) {probe})',
                        f"(define {n} '())", f'(define {n} (if #f #f))'])
        if c == 1:
            return [probe, how, probe, f"(let (({n} 1)) {probe})"]
        if c == 2:      # local definitions do not define the global name
            return [r.choice([f'(let (({n} 1)) {probe})', f'(let () (define {n} 2) {probe})', f'((lambda ({n}) {probe}) 1)', f'(let () (define-macro ({n} x) x) {probe})',
                              f'(let loop (({n} 0)) (if (< {n} 1) (loop (+ {n} 1)) {probe}))']), probe, how, probe]
        if c == 3:      # a definition whose expression fails
            return [f"(catch #t (lambda () (define {n} (car '()))) (lambda (k . a) 'failed))", probe, how, probe]
        if c == 4:
            return [f'(if {probe} {n} (begin {how} (list {probe} \'defined)))', probe, f"(define (use{u}) (if {probe} 'yes 'no))", f'(use{u})']
        return [f"(catch #t (lambda () (eval '{n})) (lambda (k . a) (list 'unbound {probe})))", how, f"(catch #t (lambda () (eval '{n}) 'bound) (lambda (k . a) 'unbound))", probe]

    # ---- symbols that are new
    def fresh_symbols(self):
        r = self.r
        self.nt += 1
        u = self.nt
        c = r.randrange(5)
        if c == 0:
            return [f'(define s{u} (gensym))', f"(list (symbol? s{u}) (eq? s{u} s{u}) (eq? s{u} (gensym)) (eq? s{u} '{self.symname()}) (defined? s{u}))",
                    f'(let ((a (list s{u} (gensym) s{u} (gensym)))) (list (eq? (car a) (caddr a)) (eq? (cadr a) (cadddr a)) (length (memq s{u} (cdr a)))))']
        if c == 1:
            return [f'(define (new{u} n l) (if (= n 0) l (new{u} (- n 1) (cons (gensym) l))))', f'(define l{u} (new{u} {r.choice([5, 12, 40])} \'()))',
                    f'(let loop ((l l{u}) (n 0)) (if (null? l) n (loop (cdr l) (if (memq (car l) (cdr l)) (+ n 1) n))))']
        if c == 2:      # hygiene by hand
            return [f"(define-macro (my-or{u} a b) (let ((t (gensym))) `(let ((,t ,a)) (if ,t ,t ,b))))",
                    f"(let ((t 5)) (list (my-or{u} #f t) (my-or{u} t #f) (my-or{u} (my-or{u} #f #f) (my-or{u} #f t))))",
                    f'(my-or{u} {self.e(BOOL, self.glob, 3)} {self.e(INT, self.glob, 3)})']
        if c == 3:
            return [f"(define nm{u} (gensym))", f"(eval (list 'define nm{u} {self.e(INT, self.glob, 2)}))", f'(eval nm{u})', f'(defined? nm{u})',
                    f"(eval `(let ((,nm{u} 'in)) (list ,nm{u} (eval ',nm{u}))))"]
        return [f"(define-macro (swap{u} a b) (let ((t (gensym)) (t2 (gensym))) `(let ((,t ,a) (,t2 ,b)) (set! ,a ,t2) (set! ,b ,t))))",
                f"(let ((x 1) (y 2) (t 3)) (swap{u} x y) (swap{u} y t) (list x y t))"]

    # ---- names of procedures
    def names(self):
        r = self.r
        self.nt += 1
        u = self.nt
        f = f'pn{u}'
        c = r.randrange(6)
        lam = r.choice(['(lambda () 1)', '(lambda x x)', '(let ((n 0)) (lambda () (set! n (+ n 1)) n))', f"(eval '(lambda () 2))"])
        sh = lambda x: f'(procedure-name {x})'
        if c == 0:
            return [f'(define ({f} x) x)', sh(f), f'(define al{u} {f})', f'(list {sh("al%d" % u)} {sh(f)})', f'(let ((b {f})) {sh("b")})', f'(map procedure-name (list {f} al{u} (lambda (x) x)))']
        if c == 1:
            return [f'(define {f} {lam})', sh(f), f'(define ot{u} {f})', sh(f'ot{u}'), f'(set! {f} {lam})', sh(f), f'(define {f} {lam})', sh(f)]
        if c == 2:
            return [f'(list {sh(lam)} (let ((f {lam})) {sh("f")}) (let* ((f {lam}) (g f)) {sh("g")}) (letrec ((f (lambda () 1))) {sh("f")}))']
        if c == 3:
            return [f'(let () (define (in{u}) 1) (define ou{u} {lam}) (list {sh("in%d" % u)} {sh("ou%d" % u)}))', f'(define {f} (let () (define (in{u} y) y) in{u}))', sh(f), f'({f} 1)']
        if c == 4:
            return [f'(define (mk{u}) (lambda () \'made))', f'(define a{u} (mk{u}))', f'(define b{u} (mk{u}))', f'(list {sh("a%d" % u)} {sh("b%d" % u)} {sh("(mk%d)" % u)})']
        return [f"(catch #t (lambda () (procedure-name {r.choice(['5', chr(39) + 'car', '(list 1)', '#t'])})) (lambda (k . a) 'no-procedure))"]

    # ---- variable objects
    def variables(self):
        r = self.r
        out = []
        for _ in range(r.randrange(0, 3)):
            self.nt += 1
            c = f'var{self.nt}'
            out.append(f'(define {c} {r.choice(["(make-undefined-variable)", "(make-variable %s)" % self.topexpr(2, 10), "(make-variable #f)"])})')
            self.cells.append(c)
        if not self.cells:
            return out
        for _ in range(r.randrange(2, 7)):
            v, w = r.choice(self.cells), r.choice(self.cells)
            x = self.topexpr(2, 10)
            out.append(r.choice([
                f'(variable-set! {v} {x})', f'(variable-set! {v} {x})', f'(begin (variable-set! {v} {x}) {cell_show(v)})', cell_show(v), cell_show(w),
                f"(catch #t (lambda () (variable-ref {v})) (lambda (k . a) 'unbound))", f'(list (variable-bound? {v}) (variable? {v}) (variable? {x}) (eq? {v} {w}))',
                f'(let ((old {v})) (variable-set! old {x}) (eq? old {v}))', f"(if (variable-bound? {w}) (variable-set! {v} (variable-ref {w})) 'unbound)",
                f'(set! {v} {w})', f'(set! {v} (make-variable {x}))', f'(for-each (lambda (c) (variable-set! c (if (variable-bound? c) (list (variable-ref c)) 0))) (list {v} {w}))',
                f"(catch #t (lambda () (variable-ref {x})) (lambda (k . a) 'not-a-variable))", f"(catch #t (lambda () (variable-set! {x} 1)) (lambda (k . a) 'not-a-variable))",
                f"(catch #t (lambda () (variable-bound? {x})) (lambda (k . a) 'not-a-variable))", f'(map variable-bound? (list {v} {w} (make-undefined-variable) (make-variable #f)))',
                f"(catch #t (lambda () (variable-set! {v} (begin (display 1) (car '())))) (lambda (k . a) {cell_show(v)}))", f'(equal? (list {v}) (list {w}))',
                f'(variable-ref (make-variable {x}))']))
        return out


def cell_show(v):
    return f"(if (variable-bound? {v}) (variable-ref {v}) 'none)"
