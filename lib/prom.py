"""Programs about promises."""
from gen import *


class PM(Gen):
    """Promises made, shared, stored, forced again, re-entered, left by errors and continuations."""

    def __init__(self, rng, **weights):
        w = dict(delay=10, hash=0)
        w.update(weights)
        super().__init__(rng, **w)
        self.u = 0
        self.ps = []             # global promises: (name, type, may raise or escape)

    def id(self):
        self.u += 1
        return self.u

    def val(self, sc, d):
        """A body value of any type, the odd ones included."""
        r = self.r
        if r.random() < .25:
            return r.choice(["#f", "'()", '#t', '0', '""', "'sym", '(list)', '(vector)', '(lambda (q) q)', '(if #f #f)', "(delay 'inner)", 'car'])
        return self.e(r.choice(TYPES), sc, d)

    def body(self, sc, d=3):
        """An expression with a visible effect."""
        r = self.r
        i = self.id()
        x = self.val(sc, d)
        c = r.random()
        if c < .5:
            return f'(begin (display "{i};") {x})'
        if c < .7:
            return f'(begin (set! n0 (+ n0 1)) (display n0) {x})'
        if c < .8:
            return f'(begin (set! log (cons {i} log)) {x})'
        return f'(let ((a{i} (begin (display "{i}(") {x}))) (display ")") a{i})'

    def show(self, x):
        return f'(show {x})'

    def define(self, x):
        n = f'p{self.id()}'
        self.ps.append(n)
        return f'(define {n} {x})'

    # ---- scenarios: each returns forms
    def s_basic(self):
        r = self.r
        self.fuel = 25
        out = [self.define(f'(delay {self.body(self.glob)})')]
        p = self.ps[-1]
        for _ in range(r.randrange(1, 4)):
            out.append(r.choice([f'(show (force {p}))', f'(list (promise? {p}) (show (force {p})))' if False else f'(list n0 (show (force {p})) n0)', f'(map show (map force (list {p} {p})))',
                                 f'(eq? (force {p}) (force {p}))', f'(let ((q {p})) (begin (force q) (show (force {p}))))',
                                 f'(show (apply force (list {p})))', f'(for-each (lambda (x) (display (show (force x)))) (list {p} {p}))']))
        return out

    def s_shared(self):
        """The same promise in several structures and closures."""
        r = self.r
        self.fuel = 20
        p = f'p{self.id()}'
        n = self.id()
        out = [f'(define {p} (delay {self.body(self.glob)}))', f'(define st{n} (list (list {p} 1) (vector {p} {p}) (lambda () (force {p})) (delay (list (force {p}) 2))))']
        acc = [f'(show (force (car (car st{n}))))', f'(show (force (vector-ref (cadr st{n}) {r.randrange(2)})))', f'(show ((caddr st{n})))', f'(show (force (cadddr st{n})))',
               f'(begin (set! {p} #f) (show (force (caar st{n}))))', f'(show (force (vector-ref (list->vector (vector->list (cadr st{n}))) 1)))',
               f'(begin (gc) (show (force (caar st{n}))))']
        acc = [a for a in acc if '(set! ' not in a or r.random() < .5]
        r.shuffle(acc)
        if '(set! ' in ''.join(acc):     # the closures refer to the variable
            i = [k for k, a in enumerate(acc) if '(set! ' in a][0]
            acc = acc[:i + 1] + [a for a in acc[i + 1:] if 'caddr' not in a and 'cadddr' not in a]
        return out + acc[:r.randrange(2, 6)]

    def s_scope(self):
        """Bodies see the variables of the place where the promise was made, as they are when it is forced."""
        r = self.r
        i = self.id()
        self.fuel = 25
        s = Scope(self.glob)
        s.vars += [('x', INT, True), ('y', INT, True)]
        b = self.body(s)
        out = [f"(define mk{i} (lambda (x y) (list (delay {b}) (lambda (v) (set! x v)) (lambda () (list x y)))))",
               f'(define o{i} (mk{i} {self.intlit()} {self.intlit()}))', f'(define q{i} (mk{i} {self.intlit()} {self.intlit()}))']
        for _ in range(r.randrange(3, 8)):
            o = r.choice('oq') + str(i)
            out.append(r.choice([f'((cadr {o}) {self.intlit()})', f'(show (force (car {o})))', f'((caddr {o}))', f'(let ((x 1000) (y 2000)) (show (force (car {o}))))',
                                 f'(define x {self.intlit()})' if r.random() < .3 else f'((caddr {o}))']))
        return out

    def s_loop(self):
        r = self.r
        i = self.id()
        k = r.randrange(1, 5)
        self.fuel = 20
        s = Scope(self.glob)
        s.vars.append(('i', INT, False))
        b = self.body(s, 2)
        mk = r.choice([f'(do ((i 0 (+ i 1)) (l \'() (cons (delay {b}) l))) ((= i {k}) l))',
                       f'(let loop ((i 0)) (if (= i {k}) \'() (cons (delay {b}) (loop (+ i 1)))))',
                       f"(map (lambda (i) (delay {b})) '({' '.join(map(str, range(k)))}))"])
        out = [f'(define l{i} {mk})']
        for _ in range(r.randrange(1, 4)):
            out.append(r.choice([f'(map show (map force l{i}))', f'(show (force (list-ref l{i} {r.randrange(k)})))', f'(map show (map force (reverse l{i})))']))
        return out

    def s_reentrant(self):
        r = self.r
        i = self.id()
        n = r.randrange(0, 6)
        step = r.choice(['(set! c (- c 1))', '(begin (set! c (- c 1)) (display c))'])
        rec = f'(force p{i})'
        comb = r.choice([f'(+ {rec} 1)', f'(begin {rec} c)', f'(cons c (list {rec}))', f'(let ((v {rec})) (set! c (+ c 10)) (list v c))', f'(list {rec} {rec})'])
        base = r.choice(["3", "'base", '(begin (display "base") c)', '#f', "'()"])
        out = [f'(define p{i} (let ((c {n})) (delay (if (= c 0) {base} (begin {step} {comb})))))']
        out += [f'(force p{i})'] * r.randrange(1, 4)
        if r.random() < .3:
            out.append(f'(letrec ((q (delay (if c 3 (begin (set! c #t) (+ (force q) 1))))) (c #f)) (list (force q) (force q)))')
        return out

    def s_error(self):
        """A body that raises until a condition holds: the promise is not forced by that and runs again."""
        r = self.r
        i = self.id()
        n = r.randrange(0, 4)
        raise_ = r.choice(["(throw 'oops c)", '(car c)', "(error \"bad\" c)", '(undefined-fn c)', '(vector-ref (vector) c)', "(throw 'oops)", '((lambda (a b) a) 1)'])
        self.fuel = 15
        fin = self.body(self.glob, 2)
        wind = r.random() < .4
        b = f'(begin (display "run;") (if (< c {n}) (begin (set! c (+ c 1)) {raise_}) {fin}))'
        if wind:
            b = f'(dynamic-wind (lambda () (display "[")) (lambda () {b}) (lambda () (display "]")))'
        out = [f'(define p{i} (let ((c 0)) (delay {b})))']
        for _ in range(r.randrange(1, 6)):
            out.append(r.choice([f'(force p{i})', f"(catch #t (lambda () (show (force p{i}))) (lambda (k . a) (list 'caught k)))".replace(' k)))', ' (symbol? k))))'),
                                 f"(catch 'oops (lambda () (show (force p{i}))) (lambda (k . a) (cons k a)))",
                                 f'(call/cc (lambda (k) (catch #t (lambda () (k (show (force p{i})))) (lambda l (k \'out)))))']))
        return out

    def s_escape(self):
        """A body left through a continuation, forced again, or re-entered after it was forced."""
        r = self.r
        i = self.id()
        kind = r.randrange(5)
        if kind == 0:
            n = r.randrange(1, 4)
            out = [f'(define k{i} #f)', f'(define p{i} (let ((c 0)) (delay (begin (display "run;") (set! c (+ c 1)) (if (< c {n}) (k{i} (list \'left c)) (list \'done c))))))']
            out += [f'(call/cc (lambda (k) (set! k{i} k) (force p{i})))' for _ in range(r.randrange(1, 5))]
            return out
        if kind == 1:
            # the continuation inside the body is entered again: the first value stays
            out = [f'(define k{i} #f)', f'(define c{i} 0)',
                   f'(define p{i} (delay (let ((v (call/cc (lambda (k) (set! k{i} k) 0)))) (display "v") (list \'value v))))',
                   f'(force p{i})']
            for _ in range(r.randrange(1, 4)):
                out.append(r.choice([f'(if (< c{i} 3) (begin (set! c{i} (+ c{i} 1)) (k{i} c{i})) (force p{i}))', f'(force p{i})']))
            return out
        if kind == 2:
            # forced while its own body is suspended in a continuation
            return [f'(define k{i} #f)', f'(define c{i} 0)',
                    f'(define p{i} (delay (let ((v (call/cc (lambda (k) (set! k{i} k) (ret{i} \'suspended))))) (list \'resumed v c{i}))))',
                    f'(define ret{i} #f)',
                    f'(define (try{i}) (call/cc (lambda (r) (set! ret{i} r) (force p{i}))))',
                    f'(try{i})', f'(begin (set! c{i} 1) (try{i}))',
                    f'(call/cc (lambda (r) (set! ret{i} r) (k{i} 5)))', f'(force p{i})', f'(call/cc (lambda (r) (set! ret{i} r) (k{i} 6)))', f'(force p{i})']
        if kind == 3:
            return [f'(define p{i} (delay (call/cc (lambda (k) (dynamic-wind (lambda () (display "in;")) (lambda () (k \'early) \'late) (lambda () (display "out;")))))))',
                    f'(list (force p{i}) (force p{i}))']
        n = r.randrange(2, 5)
        return [f'(define r{i} \'())', f'(define p{i} (delay (begin (set! r{i} (cons \'b r{i})) (length r{i}))))',
                f'(let ((n 0) (k #f)) (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (set! r{i} (cons (force p{i}) r{i})) (if (< n {n}) (k #f)) r{i})']

    def s_stream(self):
        r = self.r
        i = self.id()
        out = []
        pre = r.choice(['', '(display n) '])
        out.append(f'(define (from{i} n) (cons n (delay (begin {pre}(from{i} (+ n {r.randrange(1, 4)}))))))')
        out.append(f'(define (take{i} s n) (if (or (= n 0) (null? s)) \'() (cons (car s) (take{i} (if (= n 1) \'() (force (cdr s))) (- n 1)))))')
        out.append(f'(define (smap{i} f s) (if (null? s) \'() (cons (f (car s)) (delay (smap{i} f (force (cdr s)))))))')
        out.append(f'(define (sfilter{i} f s) (cond ((null? s) \'()) ((f (car s)) (cons (car s) (delay (sfilter{i} f (force (cdr s)))))) (else (sfilter{i} f (force (cdr s))))))')
        out.append(f'(define (szip{i} f a b) (cons (f (car a) (car b)) (delay (szip{i} f (force (cdr a)) (force (cdr b))))))')
        out.append(f'(define s{i} (from{i} {r.randrange(0, 5)}))')
        exprs = [f's{i}', f'(smap{i} (lambda (x) (display "m") (* x x)) s{i})', f'(sfilter{i} even? s{i})', f'(szip{i} + s{i} (force (cdr s{i})))',
                 f'(sfilter{i} (lambda (x) (display "f") (> x 3)) (smap{i} (lambda (x) (+ x 1)) s{i}))']
        if r.random() < .4:
            out.append(f'(define fibs{i} (cons 0 (delay (cons 1 (delay (szip{i} + fibs{i} (force (cdr fibs{i}))))))))')
            exprs.append(f'fibs{i}')
        names = []
        for k in range(r.randrange(1, 4)):
            e = r.choice(exprs)
            out.append(f'(define t{i}{k} {e})')
            names.append(f't{i}{k}')
        for _ in range(r.randrange(1, 4)):
            out.append(f'(take{i} {r.choice(names)} {r.randrange(0, 7)})')
        if r.random() < .3:
            out.append(f'(letrec ((nth (lambda (s n) (if (= n 0) (car s) (nth (force (cdr s)) (- n 1)))))) (nth s{i} {r.choice([10, 30, 60])}))')
        return out

    def s_chain(self):
        """Promises that force other promises."""
        r = self.r
        i = self.id()
        n = r.randrange(2, 7)
        out = []
        for k in range(n):
            deps = [f'(force c{i}{j})' for j in range(k) if r.random() < .5]
            out.append(f'(define c{i}{k} (delay (begin (display "{k};") (list {k} {" ".join(deps)}))))')
        if r.random() < .4:
            out.append(f'(define c{i}{n} (delay (map force (list {" ".join(f"c{i}{k}" for k in range(n))}))))')
            n += 1
        for _ in range(r.randrange(1, 4)):
            out.append(f'(force c{i}{r.randrange(n)})')
        return out

    def s_bad(self):
        r = self.r
        x = r.choice(['5', "'(1 2)", '(lambda () 1)', '#f', '"p"', "'delay", '(vector 1)', 'car'])
        return [f"(catch #t (lambda () (force {x})) (lambda (k . a) 'not-a-promise))", f'(force {x})']

    def program(self, n=None):
        r = self.r
        out = ['(define n0 0)', "(define log '())", "(define (show x) (if (procedure? x) 'proc x))"]
        self.glob.vars.append(('n0', INT, False))
        kinds = [self.s_basic, self.s_shared, self.s_scope, self.s_loop, self.s_reentrant, self.s_error, self.s_escape, self.s_stream, self.s_chain, self.s_basic]
        for _ in range(n or r.randrange(2, 6)):
            c = r.random()
            if c < .06:
                out += self.s_bad()
            elif c < .16:
                out.append(self.topvar())
            elif c < .22:
                out.append(self.topfn())
            elif c < .4:
                out.append(self.topexpr(4, 40))
            else:
                out += r.choice(kinds)()
        out.append('(list n0 log)')
        return out
