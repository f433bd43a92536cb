"""Procedures defined by a host through the C API (harness/api_mode.inc): what they mean, and programs that use them."""
import refscm, gen
from refscm import S, prim, need, err, Prim, Sym, Str, Pair, NIL, NONE, from_list, lax_list, to_list, is_proc, is_int, OutOfDomain, Foreign, SchemeError, Closure, PRIMS, Variable, UNBOUND

# not callable from C as values: the evaluator handles them itself
SPECIAL = {'apply', 'map', 'map-in-order', 'for-each', 'call/cc', 'call-with-current-continuation', 'dynamic-wind', 'catch', 'force', 'call-with-values', 'values', 'eval'}


def callee(f):
    need(is_proc(f))
    if isinstance(f, refscm.Cont):
        raise OutOfDomain('a continuation called from C')
    if isinstance(f, Prim) and (f.name in SPECIAL or f.ctl and not f.name.startswith('c-')):
        raise OutOfDomain('called from C')
    return f


@prim('c-list', 0, None)
def _(m, *args):
    return from_list(list(args))


for _n in range(4):
    PRIMS[f'c-list{_n}'] = (S(f'c-list{_n}'), Prim(f'c-list{_n}', lambda m, *a: from_list(list(a)), _n, _n))


@prim('c-cons', 2)
def _(m, a, b):
    return Pair(a, b)


@prim('c-call', 0, None, ctl=True)
def _(m, args, k):
    need(args)
    return m.apply(callee(args[0]), args[1:], k)


@prim('c-apply', 2, ctl=True)
def _(m, args, k):
    need(args[1] is NIL or isinstance(args[1], Pair))
    return m.apply(callee(args[0]), lax_list(args[1]), k)


def elements(l):
    """As long as there are pairs."""
    r = []
    while isinstance(l, Pair):
        r.append(l.car)
        l = l.cdr
        if len(r) > refscm.LONG:
            raise OutOfDomain('circular')
    return r


def one(v):
    if isinstance(v, refscm.Values):
        raise OutOfDomain('values')
    return v


@prim('c-map', 2, ctl=True)
def _(m, args, k):
    f, l = args

    def step(l, acc):
        if not isinstance(l, Pair):
            return (k, from_list(list(acc)))
        return m.apply(callee(f), [l.car], lambda v: step(l.cdr, acc + (one(v),)))
    return step(l, ())


@prim('c-for-each', 2, ctl=True)
def _(m, args, k):
    f, l = args

    def step(l):
        if not isinstance(l, Pair):
            return (k, NONE)
        return m.apply(callee(f), [l.car], lambda v: step(l.cdr))
    return step(l)


@prim('c-fold', 3, ctl=True)
def _(m, args, k):
    f, x, l = args

    def step(l, x):
        if not isinstance(l, Pair):
            return (k, x)
        return m.apply(callee(f), [l.car, x], lambda v: step(l.cdr, one(v)))
    return step(l, x)


@prim('c-throw', 0, None)
def _(m, *args):
    need(args and isinstance(args[0], Sym))
    raise SchemeError(args[0], from_list(list(args[1:])), False)


@prim('c-fail', 1)
def _(m, x):
    raise err('error')


def guarded(m, tag, handler, k, go):
    prev = m.handlers
    m.handlers = (tag, handler, k, m.winds, prev)

    def c(v):
        m.handlers = prev
        return (k, v)
    return go(c)


@prim('c-catch', 3, ctl=True)
def _(m, args, k):
    tag, body, handler = args
    if tag is not True and not isinstance(tag, Sym):
        raise OutOfDomain('tag')
    if not isinstance(handler, Closure):
        raise OutOfDomain('handler')
    return guarded(m, tag, handler, k, lambda c: m.apply(callee(body), [], c))


@prim('c-guard', 2, ctl=True)
def _(m, args, k):
    body, mark = args
    h = Prim('c-guard handler', lambda m, key, *a: from_list([mark, key]), 1, None)
    h.ctl = True
    h.fn = lambda m, a, k: (k, from_list([mark, a[0]]))
    return guarded(m, True, Quiet(h), k, lambda c: m.apply(callee(body), [], c))


class Quiet(Prim):
    """A handler in C, which does not look at the arguments of an error."""
    __slots__ = ()

    def __init__(self, p):
        Prim.__init__(self, p.name, p.fn, p.lo, p.hi, p.ctl)


FAILED = S('c-failed')


def host_eval(m, x, k, f=lambda key: FAILED, g=lambda v: v):
    h = Prim('host', lambda m, a, k: (k, f(a[0])), 1, None, True)
    return guarded(m, True, Quiet(h), k, lambda c: (m.ev, x, m.genv, lambda v: c(g(v))))


@prim('c-eval', 1, ctl=True)
def _(m, args, k):
    return host_eval(m, args[0], k)


@prim('c-eval-string', 1, ctl=True)
def _(m, args, k):
    need(isinstance(args[0], Str))
    return host_eval(m, refscm.read_one(args[0].s), k)


@prim('c-parse', 1)
def _(m, s):
    need(isinstance(s, Str))
    return refscm.read_one(s.s)


@prim('c-error-key', 1, ctl=True)
def _(m, args, k):
    return host_eval(m, args[0], k, f=lambda key: key, g=lambda v: False)


@prim('c-define', 2)
def _(m, n, v):
    need(isinstance(n, Sym))
    m.genv.d[n] = v
    return NONE


@prim('c-ref', 1)
def _(m, n):
    need(isinstance(n, Sym) and n in m.genv.d)
    return m.genv.d[n]


@prim('c-box', 1)
def _(m, v):
    return Variable(v)


@prim('c-undefined', 0)
def _(m):
    return Variable(UNBOUND)


@prim('c-unbox', 1)
def _(m, b):
    need(isinstance(b, Variable) and b.value is not UNBOUND)
    return b.value


@prim('c-bound?', 1)
def _(m, b):
    need(isinstance(b, Variable))
    return b.value is not UNBOUND


@prim('c-box-set!', 2)
def _(m, b, v):
    need(isinstance(b, Variable))
    b.value = v
    return NONE


@prim('c-string', 1)
def _(m, s):
    need(isinstance(s, Str))
    return Str(s.s)


@prim('c-cstring', 1)
def _(m, s):
    need(isinstance(s, Str) and '\0' not in s.s)
    return Str(s.s)


@prim('c-symbol', 1)
def _(m, s):
    need(isinstance(s, Str))
    if '\0' in s.s:
        raise OutOfDomain('NUL in a symbol')
    return S(s.s)


@prim('c-symbol0', 1)
def _(m, s):
    need(isinstance(s, Str) and '\0' not in s.s)
    return S(s.s)


@prim('c-symbol-text', 1)
def _(m, s):
    need(isinstance(s, Sym))
    if s.name[:1] == '\x01':
        raise OutOfDomain('the name of a made-up symbol')
    return Str(s.name)


@prim('c-double', 1)
def _(m, x):
    need(refscm.is_num(x))
    return refscm.flo(x)


@prim('c-char', 1)
def _(m, x):
    need(isinstance(x, refscm.Char))
    return x


@prim('c-bool', 1)
def _(m, x):
    need(isinstance(x, bool))
    return x


@prim('c-ithrow', 2)
def _(m, k, args):
    if not isinstance(k, Sym) or not (args is NIL or isinstance(args, Pair)):
        raise OutOfDomain('c-ithrow')
    raise SchemeError(k, args, False)


class Full(Foreign):
    def __init__(self, *a):
        self.a = [0, *a]

    def show(self):
        return f'#<full {self.a[1]}>'

    def equal(self, b):
        return self is b


@prim('c-full', 3)
def _(m, x, y, z):
    return Full(small(x), small(y), small(z))


@prim('c-full-data', 1)
def _(m, t):
    need(isinstance(t, Full))
    return from_list(list(t.a))


@prim('c-full-set!', 3)
def _(m, t, i, v):
    need(isinstance(t, Full))
    v, i = small(v), small(i)
    need(0 <= i <= 3)
    t.a[i] = v
    return NONE


@prim('c-define-procedure', 2)
def _(m, n, a):
    need(isinstance(n, Sym) and is_int(a))
    m.genv.d[n] = PRIMS[f'c-list{a}' if 0 <= a <= 3 else 'c-list'][1]
    return NONE


@prim('c-in-module', 1, ctl=True)
def _(m, args, k):
    return m.apply(callee(args[0]), [], k)


@prim('c-new-module', 1, ctl=True)
def _(m, args, k):
    return m.apply(callee(args[0]), [], lambda v: (k, NONE))


@prim('c-module-define', 2)
def _(m, n, v):
    need(isinstance(n, Sym))
    m.features.add('cmod')
    m.cmod = dict(getattr(m, 'cmod', {}))
    m.cmod[n] = v
    return NONE


@prim('c-module-ref', 1)
def _(m, n):
    need(isinstance(n, Sym) and n in getattr(m, 'cmod', {}))
    return m.cmod[n]


class Token(Foreign):
    def __init__(self, n):
        self.n = n

    def show(self):
        return f'#<token {self.n}>'

    def equal(self, b):
        return isinstance(b, Token) and b.n == self.n


class Point(Foreign):
    def __init__(self, x, y):
        self.x, self.y = x, y

    def show(self):
        return f'#<point {self.x}>'

    def equal(self, b):
        return self is b


def small(n):
    need(is_int(n))
    if abs(n) >= 1 << 31:
        raise OutOfDomain('int')
    return n


@prim('c-token', 1)
def _(m, n):
    return Token(small(n))


@prim('c-token-data', 1)
def _(m, t):
    need(isinstance(t, Token))
    return t.n


@prim('c-token-set!', 2)
def _(m, t, n):
    need(isinstance(t, Token))
    t.n = small(n)
    return NONE


@prim('c-token?', 1)
def _(m, t):
    return isinstance(t, Token)


@prim('c-point', 2)
def _(m, x, y):
    return Point(small(x), small(y))


@prim('c-point-data', 1)
def _(m, t):
    need(isinstance(t, Point))
    return from_list([t.x, t.y])


# ---- programs: those of other properties, some of whose calls become calls of and through C

PLAIN = {'+', '-', '*', 'car', 'cdr', 'cons', 'list', 'length', 'reverse', 'append', 'equal?', 'eq?', 'not', 'vector', 'vector-ref', 'string-append', 'max', 'min', '<', '='}
SKIP = {'quote', 'quasiquote', 'define-macro', 'defmacro', 'define-syntax', 'syntax-rules', 'macro', 'define-module', 'use-modules', 'case', 'do', 'delay', 'cons-stream', 'set!'}


def proper(x):
    r = []
    while isinstance(x, Pair):
        r.append(x.car)
        x = x.cdr
    return r if x is NIL else None


def lst(*xs):
    return from_list(list(xs))


class Through:
    def __init__(self, rng, p=0.4):
        self.r, self.p, self.n = rng, p, 0

    def hit(self, p=None):
        if self.r.random() < (self.p if p is None else p):
            self.n += 1
            return True
        return False

    def walk(self, x):
        xs = proper(x)
        if not xs:
            return x
        h = xs[0]
        hn = h.name if isinstance(h, Sym) else None
        if hn in SKIP:
            return x
        if hn == 'lambda' and len(xs) > 2:
            return from_list(xs[:2] + [self.walk(y) for y in xs[2:]])
        if hn == 'define' and len(xs) > 2:
            return from_list(xs[:2] + [self.walk(y) for y in xs[2:]])
        if hn in ('let', 'let*', 'letrec') and len(xs) > 2:
            i = 2 if isinstance(xs[1], Sym) else 1
            bs = proper(xs[i])
            if bs is None:
                return x
            bs = [from_list([proper(b)[0], self.walk(proper(b)[1])]) if proper(b) and len(proper(b)) == 2 else b for b in bs]
            return from_list(xs[:i] + [from_list(bs)] + [self.walk(y) for y in xs[i + 1:]])
        if hn == 'cond':
            return from_list([h] + [from_list([self.walk(y) for y in proper(c)]) if proper(c) else c for c in xs[1:]])
        ys = [self.walk(y) for y in xs]
        n = len(ys) - 1
        if hn == 'apply' and n == 2 and self.hit():
            ys[0] = S('c-apply')
        elif hn in ('map', 'for-each', 'catch', 'throw', 'cons', 'list') and (n == 2 or hn not in ('map', 'for-each')) and self.hit():
            ys[0] = S('c-' + hn)
            if hn == 'list' and n <= 3 and self.hit(0.5):
                ys[0] = S(f'c-list{n}')
        elif hn in PLAIN and self.hit(self.p / 3):
            ys = [S('c-call')] + ys
        elif isinstance(h, Pair) and isinstance(h.car, Sym) and h.car.name == 'lambda' and self.hit():
            ys = [S('c-call')] + ys
        elif hn and len(hn) > 1 and hn[0] in 'fgp' and hn[1:].isdigit() and self.hit():
            ys = [S('c-call')] + ys
        if hn in PLAIN and self.hit(0.06):
            return lst(S('c-guard'), lst(S('lambda'), NIL, from_list(ys)), lst(S('quote'), S('g')))
        return from_list(ys)

    def top(self, f):
        y = self.walk(refscm.read_one(f))
        t = refscm.show(y)
        c = self.r.random()
        if c < 0.1:
            return f'(c-eval (quote {t}))'
        if c < 0.2:
            return '(c-eval-string "' + t.replace('\\', '\\\\').replace('"', '\\"') + '")'
        if c < 0.25:
            return f'(c-error-key (quote {t}))'
        if c < 0.3:
            return f'(list {t} (c-eval (quote {t})))' if not t.startswith('(define') else t
        return t


def extra(r, k):
    """definitions and objects of the host's"""
    v = [f'tk{i}' for i in range(3)]
    n = lambda: r.choice([0, 1, 2, 3, -1, 7, 2147483647, -2147483648])
    forms = [f'(define {x} (c-token {n()}))' for x in v]
    forms.append(f"(c-define 'cv {r.choice(['(list 1 2)', '5', 'tk0', '(lambda (x) (cons x x))', chr(34) + 'str' + chr(34)])})")
    forms.append(f"(c-define-procedure 'cp {r.randrange(5)})")
    forms.append('(define bx (c-box (list tk0 5)))')
    forms.append('(define pt (c-point 3 -4))')
    tok = lambda: r.choice(v + v + [f'(c-token {n()})', '5', 'pt', "'x", '(c-unbox bx)'])
    th = lambda: r.choice(["(lambda () 5)", "(lambda () (list 1 2))", "(lambda () (throw 'in-module 1))", "(lambda () (car 5))", "(lambda () (display 'hi) 'v)",
                           "(lambda () (c-throw 'c-in-module 2))", "(lambda () (c-guard (lambda () (throw 'x)) 1))"])
    forms += ['(define un (c-undefined))', '(define fu (c-full 1 2 3))']
    text = lambda: r.choice(['""', '"a"', '"abc"', '(make-string 300 #\\z)', '(string #\\a (integer->char 0) #\\b)', '(string (integer->char 200) #\\newline)', '(symbol->string (quote abc))',
                             '"A b"', '(make-string 1 (integer->char 255))', "'x", '5', '(substring "hello" 1 3)', '(string-append "x" (number->string 12))'])
    number = lambda: r.choice(['0', '1', '-7', '1/3', '-5/4', '2.5', '-0.0', '1e10', '9007199254740993', '4611686018427387904', '-9223372036854775807', "'x", '#t'])
    for _ in range(k + r.choice([0, 0, k])):
        forms.append(r.choice([
            lambda: f"(c-{r.choice(['string', 'cstring', 'symbol', 'symbol0'])} {text()})",
            lambda: f"(let ((s {text()})) (let ((t (c-{r.choice(['string', 'cstring'])} s))) (string-set! t 0 #\\Q) (list s t (equal? s t) (string-length t))))",
            lambda: f"(list (eq? (c-symbol {text()}) (string->symbol {text()})) (eq? 'abc (c-symbol0 {text()})))",
            lambda: f"(c-symbol-text {r.choice(['(quote abc)', '(quote x)', '(string->symbol ' + text() + ')', '5', '(c-symbol ' + text() + ')'])})",
            lambda: f"(list (c-double {number()}) (= (c-double {number()}) {number()}))",
            lambda: f"(c-double {number()})",
            lambda: f"(list (char->integer (c-char (integer->char {r.choice([0, 1, 65, 127, 128, 200, 255])}))) (eq? #t (c-bool {r.choice(['#t', '#f', '(not 5)', '5'])})))",
            lambda: f"(c-char {r.choice(['5', chr(34) + 'a' + chr(34), '#\\a', '#\\space'])})",
            lambda: f"(list (c-bound? un) (variable-bound? un) (begin (c-box-set! un {tok()}) (list (c-unbox un) (c-bound? un) (variable-ref un))))",
            lambda: f"(begin (variable-set! bx {tok()}) (c-unbox bx))",
            lambda: f"(c-{r.choice(['unbox', 'bound?'])} {r.choice(['(c-undefined)', '(make-undefined-variable)', '(make-variable 3)', 'un', '5'])})",
            lambda: f"(catch {r.choice(['#t', (chr(39) + 'ik')])} (lambda () (dynamic-wind (lambda () (display '<)) (lambda () (c-ithrow {r.choice([(chr(39) + 'ik'), (chr(39) + 'ik'), (chr(39) + 'il')])} (list 1 {tok()}))) (lambda () (display '>)))) (lambda (k . a) (list k (length a))))",
            lambda: f"(begin (c-full-set! fu {r.choice([0, 1, 2, 3, 3, 4, -1])} {n()}) (list fu (c-full-data fu)))",
            lambda: '(begin ' + ' '.join(f"(c-full-set! fu {r.choice([0, 0, 1, 2, 3])} {n()})" for _ in range(r.randrange(2, 9))) + ' (c-full-data fu))',
            lambda: f"(list (c-full-data {r.choice(['fu', 'fu', 'tk0', 'pt', '5'])}) (equal? fu (c-full 1 2 3)) (equal? fu fu) (equal? fu pt))",
            lambda: f"(let ((f (c-full {n()} {n()} {n()}))) (list f (c-full-data f)))",
            lambda: "(let ((old list-tail)) (c-define 'list-tail (lambda (a b) (list 'mine a b))) (let ((v (list (list-tail 1 2) (map list-tail '(1) '(2)) ((c-ref 'list-tail) 3 4)))) (set! list-tail old) (list v (list-tail '(1 2 3) 1))))",
            lambda: f"(begin (c-define-procedure 'vector-fill! {r.randrange(5)}) (vector-fill! {n()} {n()}))",
            lambda: f"(begin (c-define 'string-ci>? {tok()}) string-ci>?)",
            lambda: f'(c-in-module {th()})',
            lambda: f'(c-new-module {th()})',
            lambda: f"(catch #t (lambda () (c-{r.choice(['in', 'new'])}-module {th()})) (lambda (k . a) 'error))",
            lambda: f"(c-guard (lambda () (c-in-module (lambda () (c-new-module {th()})))) 'gm)",
            lambda: "(call/cc (lambda (k) (c-in-module (lambda () (k 7)))))",
            lambda: f"(c-module-define '{r.choice(['mv', 'mw', 'car'])} {tok()})",
            lambda: f"(c-module-ref '{r.choice(['mv', 'mw', 'car'])})",
            lambda: f"(list (c-module-ref '{r.choice(['mv', 'mw', 'car'])}) (car '(1)))",
            lambda: f'(c-token-set! {r.choice(v)} {n()})',
            lambda: f'(map c-token-data (list {" ".join(v)}))',
            lambda: f'(list (equal? {tok()} {tok()}) (eq? {r.choice(v)} {r.choice(v)}) (c-token? {tok()}))',
            lambda: f'(equal? (list 1 {tok()}) (list 1 {tok()}))',
            lambda: f'(list {" ".join(v)} pt)',
            lambda: f'(c-token-data {tok()})',
            lambda: f'(c-point-data {r.choice(["pt", "pt", "tk0", "5"])})',
            lambda: f'(set! {r.choice(v)} {tok()})',
            lambda: f"(begin (c-define 'cv {tok()}) cv)",
            lambda: "(list cv (c-ref 'cv))",
            lambda: "(begin (set! cv (list cv)) (c-ref 'cv))",
            lambda: f"(c-ref '{r.choice(['tk0', 'nothing', 'pt', 'car'])})" if r.random() < 0.7 else "(c-ref 5)",
            lambda: f'(cp {" ".join(str(n()) for _ in range(r.randrange(5)))})',
            lambda: f'(c-call cp {" ".join(str(n()) for _ in range(r.randrange(5)))})',
            lambda: f'(apply cp (list {" ".join(str(n()) for _ in range(r.randrange(5)))}))',
            lambda: "(map cp '(1 2 3))",
            lambda: f"(c-define-procedure 'cp {r.randrange(5)})",
            lambda: f"(c-define-procedure 'newname{r.randrange(3)} {r.randrange(5)})",
            lambda: f"(newname{r.randrange(3)} 1 2)",
            lambda: f"(catch #t (lambda () (newname{r.randrange(3)} 1)) (lambda (k . a) 'caught))",
            lambda: f"(c-fold (lambda (x acc) (+ x acc)) {n()} '(1 2 3))",
            lambda: f"(c-fold c-cons '() (list {tok()} {tok()}))",
            lambda: f"(c-for-each (lambda (x) (display x)) (list 1 \"two\" #\\3))",
            lambda: f"(c-catch 'a (lambda () (c-guard (lambda () (c-throw '{r.choice('ab')} 1)) {tok()})) (lambda (k . args) (list 'outer k args)))",
            lambda: f"(c-guard (lambda () (c-catch 'a (lambda () (c-throw '{r.choice('ab')} 1)) (lambda (k . args) (list 'inner k args)))) 'guard)",
            lambda: f"(c-error-key '(throw '{r.choice(['k1', 'k2'])} 2))",
            lambda: f"(list (c-eval '(throw 'zip 1)) (c-eval ''fine) (c-eval-string \"(+ 1 2)\"))",
            lambda: f"(dynamic-wind (lambda () (display '<)) (lambda () (c-{r.choice(['eval', 'error-key'])} '(dynamic-wind (lambda () (display '[)) (lambda () (c-throw 'x)) (lambda () (display '])))))"
                    " (lambda () (display '>)))",
            lambda: "(+ 1 (call/cc (lambda (k) (c-map (lambda (x) (if (= x 2) (k 10) x)) '(1 2 3)))))",
            lambda: f"(call/cc (lambda (k) (c-eval (list k {n()})) 'not-reached))",
            lambda: "(let ((kk #f) (n 0)) (let ((r (c-map (lambda (x) (call/cc (lambda (k) (if (= x 2) (set! kk k)) x))) '(1 2 3)))) (set! n (+ n 1)) (if (< n 3) (kk (* n 10)) r)))",
            lambda: "(let ((kk #f) (n 0)) (c-for-each (lambda (x) (if (= x 2) (call/cc (lambda (k) (set! kk k)))) (display x)) '(1 2 3)) (set! n (+ n 1)) (if (< n 3) (kk 0)) n)",
            lambda: "(let ((kk #f) (n 0)) (let ((r (c-guard (lambda () (let ((v (call/cc (lambda (k) (set! kk k) 1)))) (if (= v 2) (c-throw 'two) v))) 'm))) (set! n (+ n 1)) (if (< n 3) (kk n) (list r n))))",
            lambda: f"(let ((h (make-hash-table))) (hash-set! h {tok()} 1) (hash-ref h {tok()}))" if 0 else f"(member {tok()} (list {tok()} {tok()} {tok()}))",
        ])())
    return forms


def program(r, i):
    prof = (dict(), dict(callcc=9, wind=7, catch=9), dict(err=12, catch=12), dict(closure=6, apply=8))[i % 4]
    forms = gen.Gen(r, **prof).program()
    t = Through(r)
    try:
        forms = [t.top(f) for f in forms]
    except (OutOfDomain, refscm.ReadError):
        return ['(throw (quote bad-program) (']
    e = extra(r, r.randrange(3, 12)) if i % 2 else []
    k = r.randrange(len(forms) + 1)
    return forms[:k] + e + forms[k:]
