"""Dense histories on a few objects: many operations on the same table, vector, string, list or port, with everything
observed on the way and at the end. Loops and helpers are written in the language; sizes pass the usual internal limits."""

UPTO = '(define (upto n) (let loop ((i (- n 1)) (l (quote ()))) (if (< i 0) l (loop (- i 1) (cons i l)))))'
ITER = '(define (times n f) (do ((i 0 (+ i 1))) ((= i n)) (f i)))'
SIZES = [0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]


def atom(r):
    return r.choice(['0', '1', '2', '-1', '7', '31', '32', '62', '-31', '100', '1/2', '1.0', '2.5', '#\\a', '#\\A', '#\\space', '#t', '#f', "'a", "'b", "'foo",
                     "'A", '"a"', '"b"', '""', '"foo"', '"ab"', '"ba"', "'()", '4611686018427387904', '-9223372036854775808'])


def data(r, d=0):
    """An expression that makes a fresh datum each time it is evaluated."""
    k = r.random()
    if d > 2 or k < .55:
        return atom(r)
    if k < .65:
        return f'(string-append "{r.choice(["a", "x", ""])}" "{r.choice(["a", "b", "oo"])}")'
    xs = [data(r, d + 1) for _ in range(r.choice([1, 2, 3, 4, 5]))]
    if k < .78:
        return f'(list {" ".join(xs)})'
    if k < .9:
        return f'(vector {" ".join(xs)})'
    return f'(cons {xs[0]} {data(r, d + 1)})'


def value(r):
    return r.choice([str(r.randrange(-50, 50)), str(r.randrange(1000)), "'()", '#f', "'v", '"s"', "(list 1 2)", "'(a . b)", '(list)', "(vector 1)", "'(q)", '#\\c', "(cons 'x '())"])


def hash_history(r):
    fam = r.choice(['hash', 'hash', 'hashq', 'hashv'])
    out = []
    nt = r.choice([1, 1, 2])
    for i in range(nt):
        out.append(f'(define t{i} (make-hash-table{r.choice([" 0", " 1", " 1", " 1", " 2", " 3", " 5", "", " 31", " 100"])}))')
    keys = []
    want = r.choice([3, 5, 8, 12, 16])
    if fam == 'hash':
        while len(keys) < want:
            keys.append(data(r))
            if r.random() < .3:      # one that differs in its last part only
                a = ' '.join(atom(r) for _ in range(r.randrange(0, 6)))
                w = r.choice(['list', 'vector'])
                keys += [f'({w} {a} {data(r, 1)})', f'({w} {a} {data(r, 1)})']
    else:
        for i in range(r.choice([1, 2, 4])):
            out.append(f'(define o{i} {r.choice(["(list 1)", "(list 1)", chr(34) + "a" + chr(34), "(vector)", "(lambda () 1)", "(cons 1 2)", "(make-hash-table)"])})')
            keys.append(f'o{i}')
        small = ['0', '1', '2', '-1', '7', '31', '32', '62', '#\\a', '#\\b', '#\\A', "'a", "'b", "'foo", "'()", '#t', '#f', "'c", "'d", "'e", '97', '65']
        keys += r.sample(small, min(want, len(small)))
    for i in range(r.randrange(0, 2)):
        # many entries
        n = r.choice([20, 40, 70, 150])
        out.append(f'(do ((i 0 (+ i 1))) ((= i {n})) ({fam}-set! t0 (+ i 1000) (* i i)))')
        keys += [str(1000 + r.randrange(-1, n + 1)) for _ in range(3)]

    def observe(t):
        return f'(list {" ".join(f"({fam}-ref {t} {k})" for k in keys)})'
    nh = 0
    for j in range(r.choice([8, 16, 30, 45])):
        t = f't{r.randrange(nt)}'
        k = r.choice(keys)
        c = r.random()
        if c < .35:
            out.append(f'({fam}-set! {t} {k} {value(r)})')
        elif c < .55:
            out.append(f'({fam}-remove! {t} {k})')
        elif c < .62:
            out.append(f'({fam}-create-handle! {t} {k} {value(r)})')
        elif c < .7:
            out.append(f'(define h{nh} ({fam}-{r.choice(["get-handle", "get-handle"])} {t} {k}))' if r.random() < .5 else
                       f'(define h{nh} ({fam}-create-handle! {t} {k} {value(r)}))')
            nh += 1
        elif c < .78 and nh:
            out.append(f'(if h{r.randrange(nh)} (set-cdr! h{r.randrange(nh) if r.random() < .1 else nh - 1} {value(r)}))' if False else
                       (lambda h: f'(if {h} (begin (set-cdr! {h} {value(r)}) {h}))')(f'h{r.randrange(nh)}'))
        elif c < .84:
            out.append(f'(let ((w ({fam}-ref {t} {k}))) (if (pair? w) (set-car! w {value(r)})) w)' if r.random() < .5 else f'({fam}-get-handle {t} {k})')
        elif c < .9:
            out.append(f'({fam}-ref {t} {k})')
        else:
            out.append(observe(t))
        if r.random() < .12:
            out.append(f'(hash-fold (lambda (k v n) (+ n 1)) 0 {t})')
        if r.random() < .05:
            out.append(f'(hash-fold (lambda (k v n) (if (number? v) (+ n v) n)) 0 {t})')
        k = r.choice(keys)
        if r.random() < .05 and (fam == 'hash' or k[0] != 'o'):       # eqv? takes equal strings for the same
            out.append(f'(hash-fold (lambda (k v n) (if ({"equal?" if fam == "hash" else "eqv?"} k {k}) (list v) n)) #f {t})')
    for i in range(nt):
        out.append(observe(f't{i}'))
        out.append(f'(hash-fold (lambda (k v n) (+ n 1)) 0 t{i})')
    if nh:
        out.append(f'(list {" ".join(f"h{i}" for i in range(nh))})')
    return out


def index(r, n):
    return str(r.choice([0, 0, 1, n // 2, max(0, n - 2), n - 1, n - 1, r.randrange(0, n + 1), r.randrange(0, n + 1)]) if r.random() < .88 else
               r.choice([n, n, n + 1, -1, -2, -n, 2 * n, 2 ** 31, 2 ** 32, 2 ** 62, -2 ** 62]))


def guarded(r, x):
    return f"(catch #t (lambda () {x}) (lambda (k . rest) 'caught))" if r.random() < .4 else x


def vector_history(r):
    out = [UPTO, ITER]
    vs = []
    for i in range(r.choice([1, 2, 3])):
        n = r.choice(SIZES) if r.random() < .7 else r.randrange(0, 6)
        k = r.random()
        if vs and k < .3:
            a, m = r.choice(vs)
            out.append(f'(define v{i} {r.choice([a, f"(list->vector (vector->list {a}))"])})')
            n = m
        elif k < .6:
            out.append(f'(define v{i} (make-vector {n} {value(r)}))')
        elif k < .9:
            out.append(f'(define v{i} (list->vector (upto {n})))')
        else:
            n = min(n, 20)
            out.append(f'(define v{i} (vector {" ".join(data(r, 1) for _ in range(n))}))')
        vs.append((f'v{i}', n))
    ls = []
    for j in range(r.choice([6, 12, 25])):
        v, n = r.choice(vs)
        c = r.random()
        if c < .4:
            x = r.choice([value(r), value(r), r.choice(vs)[0]]) if r.random() < .2 else value(r)
            if x in [a for a, _ in vs]:
                x = f'(list {x})' if False else value(r)
            out.append(guarded(r, f'(vector-set! {v} {index(r, n)} {x})'))
        elif c < .6:
            out.append(guarded(r, f'(vector-ref {v} {index(r, n)})'))
        elif c < .68:
            out.append(f'(define l{len(ls)} (vector->list {v}))')
            ls.append(f'l{len(ls)}')
        elif c < .74 and ls:
            l = r.choice(ls)
            out.append(f'(if (pair? {l}) (set-car! {l} {value(r)}))')
        elif c < .8:
            out.append(f'(times (vector-length {v}) (lambda (i) (vector-set! {v} i {r.choice(["i", "(* i i)", "(list i)", "(- i)", f"(vector-ref {v} (- (vector-length {v}) (+ i 1)))"])})))')
        elif c < .85:
            out.append(f'(vector-length {v})')
        elif c < .9:
            w, _ = r.choice(vs)
            out.append(f'(list (eq? {v} {w}) (equal? {v} {w}))')
        elif c < .95:
            out.append(f'(map (lambda (x y) (equal? x y)) (vector->list {v}) (vector->list {v}))')
        else:
            out.append(f'(let ((w (vector {v} {v}))) (if (> (vector-length {v}) 0) (vector-set! (vector-ref w 0) 0 {value(r)})) (eq? (vector-ref w 0) (vector-ref w 1)))')
    out += [v for v, _ in vs] + ls
    return out


CH = ['a', 'b', 'z', 'A', 'B', 'Z', '0', '9', ' ', '!', '~', '@', '[', '`', '{', '_', '\\"', '\\\\', '\\n', '\\t', '(', ';']
CHN = ['a', 'b', 'z', 'A', 'Z', '0', 'space', 'newline', '!', '~', '@', '[', '`', '{', '_', '"', '\\', '(', ';', 'tab']


def text(r, n=None):
    n = r.choice(SIZES[:12] + [1, 2, 3, 4]) if n is None else n
    if n > 12 and r.random() < .4:
        return r.choice(CH[:8]) * n
    return ''.join(r.choice(CH[:8] if r.random() < .7 else CH) for _ in range(n))


def tlen(s):
    return len(s.replace('\\\\', 'x').replace('\\', ''))


def string_history(r):
    out = [UPTO, ITER]
    ss = []
    for i in range(r.choice([2, 3])):
        k = r.random()
        if ss and k < .3:      # a near copy
            a, n = r.choice(ss)
            out.append(f'(define s{i} (string-append {a} {r.choice(["", chr(34) + text(r, 1) + chr(34), chr(34) * 2])}))')
            n += 1
        elif k < .55:
            n = r.choice(SIZES)
            out.append(f'(define s{i} (make-string {n} #\\{r.choice(CHN)}))')
        elif k < .75:
            n = r.choice(SIZES)
            out.append(f'(define s{i} (list->string (map (lambda (i) (integer->char (+ {r.choice([32, 65, 97, 90])} (remainder i {r.choice([2, 7, 26, 30])})))) (upto {n}))))')
        else:
            t = text(r)
            n = tlen(t)
            out.append(f'(define s{i} (string-append "{t}" ""))')
        ss.append((f's{i}', n))
    ops = ['=', '<', '>', '<=', '>=']
    nd = 0
    for j in range(r.choice([6, 12, 25])):
        s, n = r.choice(ss)
        c = r.random()
        if c < .25:
            out.append(guarded(r, f'(string-set! {s} {index(r, n)} #\\{r.choice(CHN)})'))
        elif c < .35:
            out.append(guarded(r, f'(string-ref {s} {index(r, n)})'))
        elif c < .5:
            a, b = index(r, n), index(r, n)
            if r.random() < .7 and int(a) > int(b):
                a, b = b, a
            out.append(f'(define d{nd} {guarded(r, f"(substring {s} {a} {b})")})')
            out.append(f'd{nd}')
            nd += 1
        elif c < .58:
            t, _ = r.choice(ss)
            k = r.randrange(1, 4)
            out.append(f'(define d{nd} (string-append {" ".join(r.choice([s, t, chr(34) + text(r, 2) + chr(34)]) for _ in range(k))}))')
            nd += 1
        elif c < .75:
            t, _ = r.choice(ss)
            ci = r.choice(['', '-ci'])
            out.append('(list ' + ' '.join(f'(string{ci}{o}? {s} {t})' for o in ops) + ')')
        elif c < .8:
            out.append(f'(let ((l (string->list {s}))) (list (length l) (equal? (list->string l) {s}) (eq? (list->string l) {s})))')
        elif c < .85:
            out.append(f'(let ((y (string->symbol {s}))) (list (eq? y (string->symbol (string-append {s} ""))) (equal? (symbol->string y) {s})))')
        elif c < .9:
            out.append(f'(times (string-length {s}) (lambda (i) (string-set! {s} i (string-ref {s} (- (string-length {s}) (+ i 1))))))')
        elif c < .95:
            t, _ = r.choice(ss)
            out.append(f'(list (equal? {s} {t}) (eq? {s} {t}) (eqv? {s} {s}) (string-length {s}))')
        elif nd:
            out.append(guarded(r, f'(if (string? d{nd - 1}) (string-set! d{nd - 1} 0 #\\{r.choice(CHN)}))'))
    out += [f'(list {s} (string-length {s}))' for s, _ in ss] + [f'd{i}' for i in range(nd)]
    return out


def list_history(r):
    out = [UPTO]
    ls = []
    for i in range(r.choice([2, 3, 4])):
        k = r.random()
        n = r.choice(SIZES[:18])
        if ls and k < .35:
            a, m = r.choice(ls)
            e, n = r.choice([(a, m), (f'(cons {value(r)} {a})', m + 1), (f'(append {a} {r.choice(ls)[0]})', m + 2), (f'(append (upto 3) {a})', m + 3),
                             (f'(list-tail {a} {min(m, 1)})', max(0, m - 1)), (f'(reverse {a})', m), (f'(map (lambda (x) x) {a})', m), (f'(apply list {a})', m),
                             (f'(list-head {a} {m // 2})', m // 2)])
            out.append(f'(define l{i} {guarded(r, e)})')
        elif k < .7:
            out.append(f'(define l{i} (upto {n}))')
        else:
            n = r.randrange(0, 7)
            out.append(f'(define l{i} (list {" ".join(data(r, 1) for _ in range(n))}))')
        ls.append((f'l{i}', n))
    for j in range(r.choice([6, 12, 20])):
        l, n = r.choice(ls)
        m, _ = r.choice(ls)
        c = r.random()
        if c < .2:
            out.append(f'(define l{len(ls)} ' + r.choice([f'(append {l} {m})', f'(append {l} (list {value(r)}) {m})', f'(reverse {l})', f'(list-tail {l} {min(n, 2)})',
                                                          f'(cons {value(r)} {l})', f'(append {l} {value(r)})', f'(append (quote ()) {l})', f'(list-head {l} {min(n, 3)})',
                                                          f'(map list {l} {l})', f'(vector->list (list->vector {l}))', f'(apply append (list {l} {m}))']) + ')')
            ls.append((f'l{len(ls)}', n))
            if r.random() < .5:
                out[-1] = f'(define {ls[-1][0]} (catch #t (lambda () {out[-1].split(" ", 2)[2][:-1]}) (lambda (k . rest) (list 1 2 3))))'
        elif c < .35:
            p = r.choice([l, f'(list-tail {l} {index(r, n)})', f'(last-pair {l})', f'(cdr {l})'])
            out.append(f"(catch #t (lambda () (set-car! {p} {value(r)}) 'done) (lambda (k . rest) 'caught))")
        elif c < .42:
            # a new tail which cannot make a circle
            p = r.choice([l, f'(list-tail {l} {index(r, n)})', f'(last-pair {l})'])
            out.append(f"(catch #t (lambda () (set-cdr! {p} {r.choice([chr(39) + '()', value(r), '(list 1 2)', '(upto 3)'])}) 'done) (lambda (k . rest) 'caught))")
        elif c < .55:
            out.append(guarded(r, f'(list-ref {l} {index(r, n)})'))
        elif c < .65:
            f = r.choice(['memq', 'memv', 'member'])
            out.append(guarded(r, f'({f} {str(r.randrange(0, n + 2)) if f != "member" or r.random() < .6 else data(r, 1)} {l})'))
        elif c < .75:
            out.append(guarded(r, f'(list (length {l}) (list? {l}) (pair? {l}) (null? {l}))'))
        elif c < .85:
            out.append(f'(list (eq? {l} {m}) (equal? {l} {m}))')
        else:
            out.append(guarded(r, f'(let ((w 0)) (for-each (lambda (x) (set! w (if (number? x) (+ w x) (+ w 1)))) {l}) w)'))
    return out + [l for l, _ in ls]


def alist_history(r):
    ks = [data(r, 1) for _ in range(r.choice([3, 6, 10]))] + ["'a", '1', '"a"']
    n = r.choice([0, 1, 3, 6, 12])
    out = [f'(define a (list {" ".join(f"(cons {r.choice(ks)} {value(r)})" for _ in range(n))}))', '(define b a)']
    if r.random() < .5:
        out.append(f'(define b (append (list (cons {r.choice(ks)} {value(r)})) a))')
    for j in range(r.choice([8, 16, 30])):
        v = r.choice('aab')
        k = r.choice(ks)
        c = r.random()
        if c < .25:
            out.append(f'(set! {v} ({r.choice(["assoc-set!", "assq-set!"])} {v} {k} {value(r)}))')
        elif c < .4:
            out.append(f'(set! {v} (assoc-remove! {v} {k}))')
        elif c < .5:
            out.append(f'(set! {v} (acons {k} {value(r)} {v}))')
        elif c < .7:
            out.append(f'({r.choice(["assq", "assv", "assoc"])} {k} {v})')
        elif c < .85:
            out.append(f'(assoc-ref {v} {k})')
        elif c < .93:
            out.append(f'(let ((p ({r.choice(["assoc", "assv"])} {k} {v}))) (if p (set-cdr! p {value(r)})) p)')
        else:
            out.append('(list a b (eq? a b))')
    out.append('(list a b (eq? a b))')
    return out


def char_table(r):
    """Every predicate and conversion on a run of codes, and comparisons of pairs of codes."""
    lo = r.randrange(0, 250)
    n = r.choice([8, 16, 40])
    hi = min(256, lo + n)
    out = [UPTO, f'(define cs (map (lambda (i) (integer->char (+ i {lo}))) (upto {hi - lo})))']
    for f in r.sample(['char->integer', 'char-upcase', 'char-downcase', 'char-alphabetic?', 'char-numeric?', 'char-whitespace?', 'char-upper-case?', 'char-lower-case?'], 4):
        if f.startswith('char->'):
            out.append(f'(map {f} cs)')
        elif 'case' in f and not f.endswith('?'):
            out.append(f'(map (lambda (c) (char->integer ({f} c))) cs)')
        else:
            out.append(f'(map {f} cs)')
    other = r.randrange(0, 256)
    for o in r.sample(['=', '<', '>', '<=', '>='], 3):
        ci = r.choice(['', '-ci'])
        out.append(f'(map (lambda (c) (char{ci}{o}? c (integer->char {other}))) cs)')
        out.append(f'(map (lambda (c) (char{ci}{o}? (integer->char {other}) c)) cs)')
    return out


DRAIN = "(define (drain p) (let loop ((l '()) (n 0)) (let ((c (read-char p))) (if (eof-object? c) (list n (reverse l)) (loop (cons (char->integer c) l) (+ n 1))))))"
DIGEST = "(define (digest p) (let loop ((n 0) (s 0)) (let ((c (read-char p))) (if (eof-object? c) (list n s) (loop (+ n 1) (remainder (+ (* s 31) (char->integer c)) 1000003))))))"
READALL = "(define (read-all p) (let loop ((l '())) (let ((x (read p))) (if (eof-object? x) (reverse l) (loop (cons x l))))))"
COPY = "(define (copy in out) (let loop ((n 0)) (let ((c (read-char in))) (if (eof-object? c) n (begin (write-char c out) (loop (+ n 1)))))))"
SUM = "(define (sum s) (let loop ((i 0) (v 0)) (if (< i (string-length s)) (loop (+ i 1) (remainder (+ (* v 31) (char->integer (string-ref s i))) 1000003)) (list i v))))"
SHORTS = ["a,b", "a;c", "1;c\n2", 'a"b"c', "(a)b", "a'b", "#\\a#\\b", "#\\(#\\)", "a ; no end", ";;; x ; y\nz", "; a ;b", '"a;b" ; "', "\"a\\\\\" b", '"\\"" c', '"\\\\\\"" d', "'a 'b", "`(a ,b,c)", "#t#f", "#(1 2)x",
          "#\\space)", "(#\\a)", "a(b", "1(2)", '1"2"', "#\\;x", "#\\\"x", "#\\x;y", "((a . b). c)", "()()", "(;)\n)", '(")")', "(#\\))x y", "#\\newline x", "a\tb\rc\n", "\n\n a", "x;", ";", "#{a b}#c", "#{)}# d",
          "'", "(a", '"abc', ")", "a . b", "#\\", "'(", "`", ",@"]
PSIZES = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000]


def lit(s):
    return '"' + ''.join('\\' + c if c in '\\"' else '\\n' if c == '\n' else '\\t' if c == '\t' else c if 32 <= ord(c) < 127 else '\\%03o' % ord(c) for c in s) + '"'


def port_history(r):
    import syntax
    out = [UPTO, ITER, DRAIN, DIGEST, READALL, COPY, SUM, '(define std-q (current-output-port))']

    def raw():
        """(expression of a string, whether its text is meant for read)"""
        k = r.random()
        if k < .25:
            return f"(list->string (map integer->char '({' '.join(str(r.choice([0, 1, 9, 10, 13, 26, 32, 65, 127, 128, 200, 254, 255, r.randrange(256)])) for _ in range(r.choice([1, 2, 4, 9])))})))", False
        if k < .4:
            n = r.choice(PSIZES)
            return r.choice([f'(make-string {n} #\\{r.choice(CHN)})', f'(string-append (make-string {n} #\\x) {lit(r.choice(SHORTS))})',
                             f'(list->string (map (lambda (i) (integer->char (remainder (* i 7) 256))) (upto {n})))']), False
        if k < .7:
            s = ''.join(r.choice(SHORTS[:-9]) + r.choice([' ', '\n', ' ', '\t ', '\n;x\n', ';\n']) for _ in range(r.choice([0, 1, 2, 3])))
            return lit(s + r.choice(SHORTS)), True
        g = syntax.G(r, allstr=False)
        g.budget = 12
        sp = syntax.Speller(r, nul=False)
        t = sp.text([g.datum() for _ in range(r.choice([1, 2, 3]))])
        if '\0' in t:
            t = 'a b'
        if r.random() < .3:
            t = t.rstrip()
        return lit(t), True

    def small():
        return r.choice(["'a", '"b\\n"', '#\\c', '12', "'(1 \"x\" #\\y)", "(vector 1 'b)", '2.5', "'(a . b)", '""', '-1/2', '#t', "(list)", lit(r.choice(SHORTS))])
    ports = {}      # name -> kind
    files = ['f0', 'f1']
    for f in files:
        out.append(f'(call-with-output-file "{f}" (lambda (p) (display {raw()[0]} p)))')
    n = 0
    busy, rawp = {}, set()

    def new(k=None):
        nonlocal n
        k = k or r.choice(['istr', 'istr', 'istr', 'ostr', 'ostr', 'ifile', 'ofile', 'soft'])
        p = f'p{n}'
        n += 1
        read = True
        if k == 'istr':
            x, read = raw()
            if not read:
                rawp.add(p)
            out.append(f'(define {p} (open-input-string {x}))')
        elif k == 'ostr':
            out.append(f'(define {p} (open-output-string))')
        elif k == 'soft':
            out.append(f"(define log{p} '())")
            out.append(f"(define {p} (make-soft-port (vector (lambda (c) (set! log{p} (cons c log{p}))) #f (lambda () (set! log{p} (cons 'flush log{p}))) #f (lambda () (set! log{p} (cons 'close log{p})))) \"w\"))")
        else:
            f = r.choice(files)
            if busy.get(f):
                return new('ostr')
            busy[f] = p
            ports[p + 'f'] = f
            out.append(f'(define {p} (open-{"in" if k == "ifile" else "out"}put-file "{f}"))')
        ports[p] = k
        return p
    for _ in range(r.choice([2, 3])):
        new()

    def done(p):
        for f in files:
            if busy.get(f) == p:
                del busy[f]
    for _ in range(r.choice([6, 12, 20])):
        p = r.choice([q for q in ports if not q.endswith('f')])
        k = ports[p]
        c = r.random()
        if r.random() < .12 and k != 'soft':
            # the current ports, explicitly
            d = 'in' if k in ('istr', 'ifile') else 'out'
            out.append(f'(let ((old (set-current-{d}put-port {p}))) (list (eq? old {p}) (eq? (current-{d}put-port) {p})))')
            if d == 'in':
                out.append(r.choice(['(list (read-char (current-input-port)) (peek-char (current-input-port)))', f'(list (eq? (set-current-input-port (current-input-port)) {p}) (char-ready? {p}))']))
            else:
                out.append(r.choice([f'(begin (write {small()} (current-output-port)) (newline (current-output-port)))',
                                     f'(begin (display {small()} (current-output-port)) (set-current-output-port std-q) (display {small()} (current-output-port)) (eq? (current-output-port) std-q))',
                                     f"(catch #t (lambda () (set-current-output-port std-q) (set-current-output-port {r.choice(['5', '(open-input-string (list->string (list)))', chr(39) + 'a'])})) (lambda (k . a) (display 'kept (current-output-port)) (eq? (current-output-port) std-q)))"]))
            continue
        if c < .1:
            new()
        elif c < .115:
            f = [x for x in files if not busy.get(x)]
            if f:
                out.append(r.choice(['(times 230 (lambda (i) (let ((p (open-output-file "%s"))) (write i p) (close-output-port p))))', '(times 230 (lambda (i) (let ((p (open-input-file "%s"))) (read-char p) (close-input-port p))))',
                                     '(times 230 (lambda (i) (call-with-output-file "%s" (lambda (p) (write (* i i) p)))))', '(times 230 (lambda (i) (call-with-input-file "%s" peek-char)))']) % r.choice(f))
        elif k in ('istr', 'ifile'):
            if c < .3:
                out.append(f'(list (read-char {p}) (peek-char {p}) (read-char {p}) (char-ready? {p}))')
            elif c < .36:
                out.append(f'(list (peek-char {p}) (peek-char {p}) (read-char {p}))')
            elif c < .6 and (p not in rawp or r.random() < .1):
                out.append(guarded(r, f'(read {p})') if r.random() < .5 else f"(catch #t (lambda () (read {p})) (lambda (k . a) k))")
            elif c < .66 and (p not in rawp or r.random() < .1):
                out.append(f"(catch #t (lambda () (read-all {p})) (lambda (k . a) k))")
            elif c < .72:
                out.append(f'(drain {p})' if r.random() < .3 else f'(digest {p})')
            elif c < .82:
                o = [q for q in ports if ports[q] in ('ostr', 'ofile', 'soft')]
                if o:
                    out.append(f'(copy {p} {r.choice(o)})')
            elif c < .87:
                out.append(f'(close-input-port {p})')
                done(p)
            elif c < .9:
                out.append(guarded(r, f'({r.choice(["close-output-port", "write-char #%ca" % 92, "display 1", "get-output-string"])} {p})'))
            else:
                out.append(f'(list (input-port? {p}) (output-port? {p}) (eof-object? (peek-char {p})))')
        else:
            if c < .4:
                out.append(f'({r.choice(["display", "write"])} {r.choice([small(), small(), raw()[0]])} {p})')
            elif c < .5:
                out.append(f'(write-char (integer->char {r.choice([0, 10, 65, 127, 128, 255, 92, 34])}) {p})')
            elif c < .55:
                out.append(f'(newline {p})')
            elif c < .62:
                out.append(f'(times {r.choice([1, 10, 50, 130])} (lambda (i) ({r.choice(["write i", "display i", "write-char #%ca" % 92, "display (list i)"])} {p})))')
            elif c < .68:
                out.append(f'(begin (write {small()} {p}) (force-output {p}) (display {small()} {p}))')
            elif c < .75:
                out.append(f'(close-output-port {p})')
                done(p)
            elif c < .78:
                out.append(guarded(r, f'({r.choice(["close-input-port", "read-char", "read", "peek-char"])} {p})'))
            elif k == 'ostr':
                out.append(r.choice([f'(sum (get-output-string {p}))', f'(let ((a (get-output-string {p})) (b (get-output-string {p}))) (list (equal? a b) (eq? a b) (string-length a)))', f'(digest (open-input-string (get-output-string {p})))',
                                     f'(catch #t (lambda () (read-all (open-input-string (get-output-string {p})))) (lambda (k . a) k))',
                                     f'(let ((s (get-output-string {p}))) (if (> (string-length s) 0) (string-set! s 0 #\\!)) (sum (get-output-string {p})))']))
            elif k == 'soft':
                out.append(f'(list (length log{p}) (if (pair? log{p}) (car log{p}) log{p}))')
            else:
                f = ports[p + 'f']
                if busy.get(f) == p:
                    out.append(f'(close-output-port {p})')
                    done(p)
                out.append(f'(call-with-input-file "{f}" {r.choice(["digest", "drain"])})')
    for p, k in list(ports.items()):
        if p.endswith('f'):
            continue
        if k == 'ostr':
            out.append(f'(let ((s (get-output-string {p}))) (list (sum s) (if (< (string-length s) 40) (map char->integer (string->list s)))))')
        elif k == 'soft':
            out += [f'log{p}', f'(close-output-port {p})', f'(close-output-port {p})', f'(display "after" {p})', f'(length log{p})', f'log{p}']
        elif k == 'ofile':
            out.append(f'(close-output-port {p})')
            done(p)
        else:
            out.append(f'(digest {p})')
            out.append(f'(close-input-port {p})')
            done(p)
    out += [f'(call-with-input-file "{f}" digest)' for f in files]
    out += [f'(call-with-input-file "{f}" (lambda (p) (list (read-char p) (peek-char p) (read-char p))))' for f in files]
    return out
