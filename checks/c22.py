#!/usr/bin/env python3
import _path, check, expect, refscm, syntax
from expect import Prog
from refscm import Char, NIL, Pair, S, Str, Sym, Vec, from_list, show

RULE = ('data built by procedure calls, printed by write (to string, file and soft ports, the current output, the embedding API) and read back: equal?, of the same '
        'types, printed the same again, and printed exactly as an independent printer says; display of atoms and of structures; non-trivial: every datum')


def plain(x):
    """Whether the reader accepts every symbol of x as written."""
    return True


def built(r):
    g = syntax.G(r, anychar=r.random() < .3)
    x = g.special() if r.random() < 0.04 else g.datum()
    return x


def small(x, n=[0]):
    k = 0
    st = [x]
    while st:
        y = st.pop()
        k += 1
        if isinstance(y, Pair):
            st += [y.car, y.cdr]
        elif isinstance(y, Vec):
            st += y.v
        elif isinstance(y, Str):
            k += len(y.s) // 3
    return k < 400


SAME = """(define (same a b)
  (cond ((pair? a) (and (pair? b) (same (car a) (car b)) (same (cdr a) (cdr b))))
        ((vector? a) (and (vector? b) (= (vector-length a) (vector-length b)) (same (vector->list a) (vector->list b))))
        ((string? a) (and (string? b) (= (string-length a) (string-length b)) (string=? a b)))
        ((char? a) (and (char? b) (char=? a b)))
        ((number? a) (and (number? b) (eq? (exact? a) (exact? b)) (= a b)))
        (else (eq? a b))))"""


def shared(r, x):
    """Parts of x in several places, and the expression that says so."""
    e = syntax.build(x, r)
    k = r.randrange(5)
    if k == 0:
        return from_list([x, x]), f'(let ((s {e})) (list s s))'
    if k == 1:
        return Vec([x, from_list([S('a')], x)]), f"(let ((s {e})) (vector s (cons 'a s)))"
    if k == 2:
        return from_list([1, 2], x), f'(let ((l (list 1 2))) (set-cdr! (cdr l) {e}) l)'
    if k == 3:
        return Vec([False, x, 0]), f'(let ((v (make-vector 3 0))) (vector-set! v 1 {e}) (vector-set! v 0 #f) v)'
    return x, e


def roundtrip(r, i):
    x, e = shared(r, built(r))
    if not small(x):
        x, e = 5, '5'
    w = show(x)
    way = i % 5
    if not rawok(w):
        way = r.choice([0, 1, 4])
    parts = [(SAME, [('?',)]), (f'(define x {e})', [('N',)])]
    files = None
    if way == 0:
        parts.append(('(define s (call-with-output-string (lambda (p) (write x p))))', [('N',)]))
    elif way == 1:
        parts += [('(call-with-output-file "o.txt" (lambda (p) (write x p)))', [('?',)]),
                  ('(define y (call-with-input-file "o.txt" (lambda (p) (read p))))', [('N',)]), ('(list (same x y) (equal? x y))', [('V', '(#t #t)')]),
                  ('(define s (call-with-output-string (lambda (p) (write y p))))', [('N',)])]
    elif way == 2:
        parts += [('(define l (quote ()))', [('N',)]),
                  ('(define sp (make-soft-port (vector (lambda (c) (set! l (cons (string c) l))) (lambda (t) (set! l (cons t l))) #f #f #f) "w"))', [('N',)]),
                  ('(write x sp)', [('N',)]), ('(define s (apply string-append (reverse l)))', [('N',)])]
    elif way == 3:
        parts += [('(define s (call-with-output-string (lambda (p) (write x p))))', [('N',)]),
                  ('(write x)', [('O', w), ('N',)]), ('x', [('V', w)])]
    else:       # several data, one after the other
        parts += [('(define s (call-with-output-string (lambda (p) (write x p))))', [('N',)]),
                  ('(define p (open-input-string (string-append s " " s "\\n" s)))', [('N',)]),
                  ('(let* ((a (read p)) (b (read p)) (c (read p))) (list (same a x) (same b x) (same c x) (eof-object? (read p))))', [('V', '(#t #t #t #t)')])]
    parts += [('(define y (read (open-input-string s)))', [('N',)]), ('(list (same x y) (equal? x y))', [('V', '(#t #t)')]),
              ('(string=? s (call-with-output-string (lambda (p) (write y p))))', [('V', '#t')]), *([('y', [('V', w)])] if rawok(w) else []), ('s', [('V', show(Str(w)))])]
    return Prog(parts, keep=len(parts), files=files)


def rawok(w):
    return not any(c in '\x02\x03\x04\x1e\0' for c in w)


def plainchars(x):
    if isinstance(x, Pair):
        return plainchars(x.car) and plainchars(x.cdr)
    if isinstance(x, Vec):
        return all(plainchars(y) for y in x.v)
    if isinstance(x, (Str, Char)):
        return all(c not in '\x02\x03\x04\0' for c in (x.s if isinstance(x, Str) else x.c))
    return True


def displayed(r, i):
    """display: characters and strings by themselves, and in vectors, as they are."""
    parts = []
    for _ in range(r.choice([1, 2, 4])):
        g = syntax.G(r)
        x = built(r) if r.random() < .6 else g.atom()
        if r.random() < .3:
            x = Vec([x, Str(g.string()), g.atom()])
        if not small(x) or not plainchars(x):
            continue
        t = show(x, False)
        parts.append((f'(display {syntax.build(x, r)})', [('O', t), ('N',)]))
        parts.append((f'(call-with-output-string (lambda (p) (display {syntax.build(x, r)} p)))', [('V', show(Str(t)))]))
    return Prog(parts) if parts else None


def literal(r, i):
    """What is read prints as itself: the printed form of a datum is a spelling of it."""
    parts = []
    for _ in range(r.choice([1, 2, 3])):
        x = built(r)
        w = show(x)
        if not rawok(w):
            continue
        parts.append((f'(quote {w})', [('V', w)]))
    return Prog(parts, mode='forms') if parts else None


def body(chk):
    expect.explore(chk, 'round trip', roundtrip, chk.n(8000, 120000)) or \
        expect.explore(chk, 'literal', literal, chk.n(4000, 60000)) or \
        expect.explore(chk, 'display', displayed, chk.n(2000, 20000)) or \
        expect.explore(chk, 'round trip again', roundtrip, chk.n(1000, 12000), variants=('asan',))


check.main('C22', RULE, body)
