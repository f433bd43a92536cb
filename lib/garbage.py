"""Long-running programs that keep a bounded amount of data: loops whose bodies make garbage of every kind, and keep a bounded part of it."""

FILES = {'a.scm': '(define (gf x) (list x "abc" 1.5 \'(a . b)))\n(define gv (gf (vector 1 2)))\n', 'b.scm': '(define (gf x) (list x "abc" 1.5 (a . b)) "def\n'}


def num(r):
    return r.choice(['i', '(modulo i 17)', '(modulo (* i 7919) 61)', '(* i 3)', '7', '(+ i 0.5)', '(/ i 7)'])


def size(r, big):
    m = r.choice([3, 10, 40] + ([300, 3000] if big else []))
    return f'(modulo (* i {r.choice([7919, 31, 127, 1])}) {m})' if r.random() < .6 else str(r.randrange(m))


def g(r, d=0):
    """An expression that makes garbage and gives a value."""
    def s(k=1):
        return g(r, d + k)
    if d > 3 or r.random() < .12 * d:
        return r.choice([num(r), "'sym", '"text"', '(list i)', '(cons i i)', '(number->string i)', '#\\a', '(vector i)', '(* 1.5 i)'])
    k = r.randrange(47)
    n = size(r, d < 2)
    if k < 4:
        return '(list ' + ' '.join(s() for _ in range(r.randrange(1, 5))) + ')'
    if k < 6:
        return f'(cons {s()} {s()})'
    if k < 8:
        return f'(vector {s()} {s()} {s()})'
    if k == 8:
        return f'(make-vector {n} {s()})'
    if k == 9:
        if d < 2 and r.random() < .3:       # now and then a long one
            return f'(make-{r.choice(["string", "string", "vector"])} (if (= 0 (modulo i {r.choice([3, 17])})) {r.choice([4097, 9000, 30000])} 5) #\\x)'
        return f'(make-string {n} #\\x)'
    if k == 10:
        return f'(string-append (make-string {n} #\\y) (number->string i) "z")'
    if k == 11:
        return f'(let ((x {s()})) (lambda (y) (list x y)))'
    if k == 12:
        return f'((lambda (x . y) (list x y)) {s()} {s()})'
    if k == 13:
        return f'(let ((h (make-hash-table {r.choice([1, 5, 31])}))) (hash-set! h {num(r)} {s()}) (hash-set! h "k" {s()}) h)'
    if k == 14:
        return f'(let ((h (make-hash-table))) (do ((j 0 (+ j 1))) ((= j {r.randrange(1, 60)})) (hash-set! h j (list j i))) (hash-remove! h 3) h)'
    if k == 15:
        return f'(delay {s()})'
    if k == 16:
        return f'(let ((p (delay {s()}))) (force p) p)'
    if k == 17:
        return f'(list (list {s()} i) {s()})'      # no continuations: their stack copies keep what old slots hold
    if k == 18:
        return f'(call-with-output-string (lambda (p) (write {s()} p)))' if r.random() < .5 else f'(call-with-output-string (lambda (p) (catch #t (lambda () (display {s(2)} p) (car p)) (lambda e (list e)))))'
    if k == 19:
        return '(let ((p (open-input-string "(a b) 3 \\"xyz\\" #(1 2)"))) (read p) (list p (read p)))'
    if k == 20:
        return '(if (= 0 (modulo i 97)) (let ((p (open-input-string "(a b (c \\"d\\" "))) (catch #t (lambda () (read p)) (lambda e e))))'
    if k == 21:
        return f'(catch #t (lambda () {s()} (car {s()}) (car 5)) (lambda e e))'
    if k == 22:
        return f"(catch 'a (lambda () (cons 1 (throw 'a {s()} {s()}))) (lambda (k . a) a))"
    if k == 23:
        return f"(catch 'a (lambda () (dynamic-wind (lambda () #f) (lambda () (throw 'a {s()})) (lambda () (list i)))) (lambda e e))"
    if k == 24:
        return f'(dynamic-wind (lambda () (list 1)) (lambda () {s()}) (lambda () (list 2)))'
    if k == 25:
        return f'(map (lambda (x y) (list x y i)) (list {s()} {s()}) (list {s()} i))'
    if k == 26:
        return f'(let ((a 0)) (for-each (lambda (x) (set! a (cons x a))) (list {s()} {s()})) a)'
    if k == 27:
        return f'(append (list {s()}) (list i 2) {r.choice(["(quote ())", "(list 3)"])})'
    if k == 28:
        return f'(let ((l (list 1 2 {s()}))) (set-cdr! (cddr l) l) (car l))'
    if k == 29:
        return f'(let ((v (make-vector 3 0))) (vector-set! v 0 v) (vector-set! v 1 {s()}) (vector-length v))'
    if k == 30:
        return f'(letrec ((f (lambda (n a) (if (= n 0) a (f (- n 1) (cons n a)))))) (f {r.randrange(1, 12)} {s()}))'
    if k == 31:
        return f'(letrec ((f (lambda (n) (if (= n 0) {s()} (cons n (f (- n 1))))))) (f {r.randrange(1, 30)}))'
    if k == 32:
        return f'(list->vector (vector->list (vector {s()} {s()})))'
    if k == 33:
        return f'`(a ,{s()} ,@(list {s()} i) #(1 ,i))'
    if k == 34:
        return f"(eval (list 'let (list (list 'x {num(r)})) (list 'list 'x 1)))"
    if k == 35:
        return f'(apply list i (list {s()} {s()}))'
    if k == 36:
        return f'(call-with-values (lambda () (values {s()} {s()})) list)'
    if k == 37:
        return '(list->string (reverse (string->list (number->string i))))'
    if k == 38:
        return f'(let loop ((j 0) (a (list {s()}))) (if (< j {r.randrange(1, 12)}) (loop (+ j 1) (cons j a)) a))'
    if k == 39:
        return f'(assoc-set! (list (cons "a" {s()}) (cons i 2)) "b" {s()})'
    if k == 40:
        return f"(symbol->string (string->symbol (string-append \"q\" (number->string {r.choice(['i', '(modulo i 50)'])}))))"
    if k == 41:
        return f'(let () (define-macro (gm a) `(list ,a ,a)) (gm {s()}))'
    if k == 42:
        return f'(let* ((x {s()}) (y (list x))) (define (in z) (list z y)) (set! x (lambda () y)) (in x))'
    if k == 43:
        return f'(do ((j 0 (+ j 1)) (a (list) (cons (list j i) a))) ((= j {r.randrange(1, 15)}) a))'
    if k == 44:
        return '(begin (primitive-load "a.scm") gv)' if d < 2 else '(list-tail (list 1 i) 1)'
    if k == 45:
        return '(if (= 0 (modulo i 97)) (catch #t (lambda () (primitive-load "b.scm")) (lambda e (car e))))' if d < 2 else '(substring "abcdef" 1 4)'
    return f'(make-soft-port (vector (lambda (c) (list c {num(r)})) (lambda (s) s) #f #f #f) "w")'


LONG = ['(make-string %d #\\a)', '(make-vector %d i)', '(make-hash-table %d)', "(string-append (make-string %d #\\b) \"c\")", '(substring (make-string %d #\\b) 1)', '(string-copy (make-string %d #\\b))',
        '(call-with-output-string (lambda (p) (display (make-string %d #\\c) p)))', '(read-char (open-input-string (make-string %d #\\d)))', '(string->symbol (make-string (+ 1 (modulo %d 7)) #\\e))',
        '(list->vector (vector->list (make-vector (modulo %d 700) i)))', '(list->string (string->list (make-string (modulo %d 700) #\\e)))', '(vector-length (make-vector %d 0.5))',
        '(let ((p (open-output-string))) (display (make-string %d #\\c) p) (get-output-string p))']


def keep(r):
    """(setup forms, statement): keeps a bounded number of the values made."""
    k = r.randrange(9)
    e = g(r)
    if k < 3:
        return [], e
    if k == 3:
        n = r.choice([1, 5, 40])
        return [f'(define ring (make-vector {n} 0))'], f'(vector-set! ring (modulo i {n}) {e})'
    if k == 4:
        n = r.choice([1, 10, 60])
        return ["(define q '())"], f"(begin (set! q (cons {e} q)) (if (= 0 (modulo i {n})) (set! q '())))"
    if k == 5:
        return ['(define tab (make-hash-table 11))'], f'(begin (hash-set! tab (modulo i 41) {e}) (hash-remove! tab (modulo (* i {r.choice([1, 7, 30])}) 41)))'
    if k == 6:
        return ['(define tab (make-hash-table 3))'], f'(hash-set! tab (modulo i 13) {e})'
    if k == 7:
        return ['(define cell (cons 0 0))'], f'(set-{r.choice(["car", "cdr"])}! cell {e})'
    return ['(define last 0)'], f'(set! last {e})'


def program(r):
    """(setup, n -> loop form)"""
    setup, stmts = [], []
    for _ in range(r.randrange(1, 4)):
        a, b = keep(r)
        setup += [x for x in a if x not in setup and not any(x.split()[1] == y.split()[1] for y in setup)]
        stmts.append(b)
    if r.random() < .3:                  # long blocks outside the collected heap
        n = r.choice([600, 5000, 30000])
        stmts.append(f'(if (= 0 (modulo i {r.choice([1, 3, 7])})) {r.choice(LONG) % n})')
    if r.random() < .2:                  # much that stays
        setup.append(r.choice(['(define big (do ((i 0 (+ i 1)) (a (list) (cons (vector i i) a))) ((= i 20000) a)))',
                               '(define big (make-vector 200000 1))', '(define big (make-string 1000000 #\\a))']))
    k = r.random()
    if k < .2:                           # phases of different kinds
        b = f'(if (< (modulo i 100) 50) (begin {stmts[0]}) (begin {" ".join(stmts[1:]) or g(r)}))'
    elif k < .3:                         # large structures built and dropped
        b = f'(begin {" ".join(stmts)} (if (= 0 (modulo i 200)) (do ((j 0 (+ j 1)) (a (list) (cons {r.choice(["j", "(list j)", "(vector j i)", "(number->string j)", "(lambda () a)"])} a))) ((= j {r.choice([2000, 20000])}) 0))))'
    else:
        b = ' '.join(stmts)
    where = r.random()

    def loop(n):
        body = f'(do ((i 1 (+ i 1))) ((= i {n}) 0) {b})'
        if where < .15:
            return f'(let deep ((n {100}) (x (list 1 2))) (if (= n 0) {body} (+ 0 (deep (- n 1) (list n)))))'
        if where < .25:
            return f'(catch #t (lambda () (dynamic-wind (lambda () #f) (lambda () {body}) (lambda () #f))) (lambda e e))'
        if where < .3:
            return f'(let () (define (run) {body}) (run))'
        return body
    return setup, loop
