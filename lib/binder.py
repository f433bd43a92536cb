"""Modules whose unbound names a procedure supplies (set-module-binder!)."""
import expect

SETUP = ["(begin (define log-q '()) (define out-q #f) (define again-q #f) (define home-q (current-module)) 0)",
         "(begin (define (kind-q s) (substring (symbol->string s) 0 2)) 0)",
         '''(begin (define (supply-q tag own)
  (lambda (m s d)
    (set! log-q (cons (list tag s (eq? m (own))) log-q))
    (let ((k (kind-q s)))
      (cond ((equal? k "bv") (list tag s))
            ((equal? k "bx") (make-variable (list s tag)))
            ((equal? k "bf") #f)
            ((equal? k "bt") (throw 'supply-q s tag))
            ((equal? k "be") (car s))
            ((equal? k "bk") (out-q (list 'out s)))
            ((equal? k "bu") (catch #t (lambda () bv-within-the-supplier) (lambda (k . a) (list tag 'none))))
            ((equal? k "bw") (list log-missing-q s))
            ((equal? k "bp") (lambda (a) (list a s tag)))
            ((equal? k "bg") (call/cc (lambda (c) (set! again-q c) 'first)))
            ((equal? k "bd") (dynamic-wind (lambda () (display "<")) (lambda () (list tag s)) (lambda () (display ">"))))
            (else #f))))) 0)''']


def make(r, i):
    nm = r.randrange(2, 5)
    parts = [(s, [('V', '0')]) for s in SETUP]
    for m in range(nm):
        parts.append((f"(begin (define m{m}-q {'home-q' if m == 0 else f'(resolve-module (quote (bq{m})))'}) 0)", [('V', '0')]))
    has = {}
    for m in range(nm):
        if r.random() < .75:
            has[m] = f't{m}'
            parts.append((f"(begin (set-module-binder! m{m}-q (supply-q 't{m} (lambda () m{m}-q))) 0)", [('V', '0')]))
    keep = len(parts)
    cur, n, bound = 0, 0, {}
    for _ in range(r.randrange(6, 22)):
        c = r.random()
        if c < .2:
            cur = r.randrange(nm)
            parts.append((f'(begin (set-current-module m{cur}-q) 0)', [('V', '0')]))
            continue
        if c < .28:
            has[cur] = f'u{n}'
            parts.append((f"(begin (set-module-binder! m{cur}-q (supply-q 'u{n} (lambda () m{cur}-q))) 0)", [('V', '0')]))
            n += 1
            continue
        n += 1
        k = r.choice('bv bv bx bf bt be bk bk bu bw bp bg bd'.split())
        s = f'{k}{n}'
        t = has.get(cur)
        if c < .36:         # a name that has become bound is not asked for
            parts.append((f'(begin (define {s} {n}) (set! log-q \'()) (list {s} (let ((l{s} 1)) l{s}) log-q))', [('V', f'({n} 1 ())')]))
            continue
        if c < .42:
            parts.append((f"(begin (set! log-q '()) (let (({s} 5)) (list {s} ((lambda ({s}) {s}) 6) log-q)))", [('V', '(5 6 ())')]))
            continue
        parts.append(use(r, k, s, t))
    return Part(parts, keep=keep, mode='forms')


class Part(expect.Prog):
    def cands(self):
        """Leading switches decide what the later forms mean: only the tail is cut."""
        for i in range(self.keep + 1, len(self.parts)):
            yield Part(self.parts[:i], self.keep, self.files, self.mode)

    def without(self, i):
        return Part(self.parts[:i] + self.parts[i + 1:], self.keep, self.files, self.mode)


def logged(t, s, times=1):
    return '(' + ' '.join([f'({t} {s} #t)'] * times) + ')'


def use(r, k, s, t):
    clear = "(begin (set! log-q '()) "
    tell = ' (let ((l log-q)) (list v l)))'
    if t is None or k in ('bf', 'bw', 'be'):
        if r.random() < .4:
            return f'(list 1 {s})', [('X', None)]
        return f"(catch #t (lambda () (list 1 {s})) (lambda (k . a) 'no))", [('V', 'no')]
    v = {'bv': f'({t} {s})', 'bx': f'({s} {t})', 'bu': f'({t} none)', 'bd': f'({t} {s})'}.get(k)
    if v:
        o = [('O', '<>')] if k == 'bd' else []
        c = r.randrange(6)
        if c == 0:
            return f"{clear}(let ((v {s})){tell})", o + [('V', f'({v} {logged(t, s)})')]
        if c == 1:
            return f"{clear}(let ((v (list {s} {s}))){tell})", o * 2 + [('V', f'(({v} {v}) {logged(t, s, 2)})')]
        if c == 2:
            return f"{clear}(let ((v ((lambda (a) (list a {s})) 7))){tell})", o + [('V', f'((7 {v}) {logged(t, s)})')]
        if c == 3:
            return f"{clear}(let ((v (catch #t (lambda () {s}) (lambda (k . a) 'wrong)))){tell})", o + [('V', f'({v} {logged(t, s)})')]
        if c == 4:
            return f"{clear}(let ((v (map (lambda (i) (if (= i 2) {s} i)) '(1 2 3)))){tell})", o + [('V', f'((1 {v} 3) {logged(t, s)})')]
        return s, o + [('V', v)]
    if k == 'bp':
        return f"{clear}(let ((v ({s} 9))){tell})", [('V', f'((9 {s} {t}) {logged(t, s)})')]
    if k == 'bt':
        if r.random() < .4:
            return s, [('X', None)]
        return f"{clear}(let ((v (catch 'supply-q (lambda () {s}) (lambda l l)))){tell})", [('V', f'((supply-q {s} {t}) {logged(t, s)})')]
    if k == 'bk':
        if r.random() < .5:
            return f"{clear}(let ((v (call/cc (lambda (k) (set! out-q k) (list 'not {s}))))){tell})", [('V', f'((out {s}) {logged(t, s)})')]
        return (f"{clear}(let ((v (call/cc (lambda (k) (set! out-q k) (catch #t (lambda () (dynamic-wind (lambda () (display 'i)) (lambda () {s}) (lambda () (display 'o)))) (lambda l 'not)))))){tell})",
                [('O', 'io'), ('V', f'((out {s}) {logged(t, s)})')])
    n = r.randrange(2, 5)       # bg: the supplier gives its value again and again
    return (f"{clear}(let ((n 0)) (let ((v {s})) (set! n (+ n 1)) (if (< n {n}) (again-q (* n 10)) (list v n log-q)))))", [('V', f'({(n - 1) * 10} {n} {logged(t, s)})')])
