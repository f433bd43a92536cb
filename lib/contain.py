"""Failing evaluations put between the forms of a correct program: what the program does must stay the same."""
import check, diff, gen, run

FILES = {'bad1.scm': "(define from-bad1 1)\n(car 5)\n(display \"never\")\n", 'bad2.scm': '(display "never"\n', 'bad3.scm': "(let ((a 1)) (catch 'no (lambda () (vector-ref (vector) a)) (lambda l l)))\n",
         'bad4.scm': '(define-module (bad4))\n(define in-bad4 1)\n(throw \'left in-bad4)\n', 'good.scm': '1\n', 'chain.scm': '(let loop ((i 0)) (if (< i 3) (loop (+ i 1)) (primitive-load "bad1.scm")))\n'}

ERR = ['(car 5)', '(vector-ref (vector 1) 9)', '(unbound-thing-q)', 'unbound-thing-q', '(+ 1 "a")', "(throw 'k 1 2)", "(throw 'k)", '((lambda (x) x))', '((lambda (x) x) 1 2)', '(5 5)', '("f" 1)', '(string-ref "abc" 3)',
       '(list-ref (list 1) 4)', '(hash-ref 5 1)', '(symbol->string "a")', '(modulo 1 0)', '(apply car 5)', '(apply car (list 1))', '(if)', '(let ((x)) x)', '(let (5) 5)', '(lambda)', '(lambda 5)', '(define)',
       '(cond (else))', '(do ((i 0)) )', '(map car (list 1))', "(for-each car '(1))", '(force (delay (car 5)))', '(read (open-input-string "(a"))', '(read (open-input-string "\\"abc"))',
       '(read (open-input-string ")"))', "(read (open-input-string \"#(1 (2\"))", "(eval '(car 5))", "(eval '(if))", '(call-with-input-file "none.txt" read)', '(open-input-file "none.txt")', '(primitive-load "none.scm")',
       '(primitive-load "bad1.scm")', '(primitive-load "bad2.scm")', '(primitive-load "bad3.scm")', '(primitive-load "chain.scm")', '(string->symbol 5)', '(close-input-port 5)',
       '(char-upcase "a")', '(list-tail (list 1) 3)', '(substring "abc" 2 1)', '(list->vector 5)', '(vector-length 5)', "(append '(1 . 2) '(3))", '(call-with-values (lambda () (car 5)) list)', '(call-with-output-string (lambda (p) (write 1 p) (car 5)))',
       '(dynamic-wind (lambda () (car 5)) (lambda () 1) (lambda () 2))', '(dynamic-wind (lambda () 1) (lambda () (car 5)) (lambda () 2))', '(dynamic-wind (lambda () 1) (lambda () 2) (lambda () (car 5)))',
       "(dynamic-wind (lambda () 1) (lambda () (throw 'a)) (lambda () (throw 'b)))", "(catch 'a (lambda () (throw 'a)) (lambda l (throw 'b l)))", "(catch 'a (lambda () (throw 'b)) (lambda l 1))", "(catch #t (lambda () (car 5)) 5)",
       "(catch #t (lambda () (car 5)) (lambda () 1))", '(catch #t)', '(call/cc 5)', '(call/cc (lambda () 1))', '(let () (define-macro (mq a) (car a)) (mq 5))', "(let () (define-macro (mq a) (list 'car a)) (mq 5))", '`(1 ,(car 5) ,@(list 1))',
       '`(1 ,@5 2)', '(hash-for-each (lambda (k v) (car k)) hq)', '(hash-fold (lambda (k v a) (car k)) 0 hq)', '(write-char #\\a (make-soft-port (vector (lambda (c) (car c)) #f #f #f #f) "w"))', '(let loop ((i 0)) (if (< i 9) (loop (+ i 1)) (car i)))',
       '(letrec ((f (lambda (n) (if (= n 0) (car n) (+ 1 (f (- n 1))))))) (f 40))', '(do ((i 0 (+ i 1))) ((= i 5) (car i)) i)', '(case (car 5) ((1) 2))', '(cond ((car 5) 1))', '(and 1 (car 5))', '(begin (car 5) 1)', '(let* ((a 1) (b (car a))) b)',
       "(letrec ((a (car 5))) a)", '(list 1 2 (car 5))', '(vector (car 5))', '(string-append "a" (car 5))', '(set-car! 5 1)', '(let ((a 1)) (set! a (car a)))', "(let () (define a (car 5)) a)", "(with-exception 5)", '(assq 1 5)', '(list->string (list 1))']
WRAP = ['%s', '%s', '(let ((x 1) (y 2)) %s)', '((lambda (x . more) %s) 1 2 3)', '(map (lambda (x) %s) (list 1 2))', '(for-each (lambda (x) %s) (list 1 2))', '(do ((i 0 (+ i 1))) ((= i 2)) %s)', '(let loop ((i 0)) (if (< i 2) (begin %s (loop (+ i 1))) i))',
        '(dynamic-wind (lambda () #f) (lambda () %s) (lambda () #f))', '(call/cc (lambda (k) %s))', '(call/cc (lambda (k) (dynamic-wind (lambda () #f) (lambda () (k %s)) (lambda () #f))))', '(force (delay %s))', "(apply (lambda l %s) '(1 2))",
        '(call-with-output-string (lambda (p) (write 1 p) %s))', '(hash-for-each (lambda (k v) %s) hq)', "(catch 'other (lambda () %s) (lambda l 'no))", "(catch #t (lambda () %s) (lambda (k . l) (apply throw k l)))", '(call-with-values (lambda () %s) list)',
        '(list 1 %s 2)', '`(1 ,%s)', '(let () (define (in x) %s) (in 1))', '(+ 1 (let* ((a 1) (b %s)) b))', '(if %s 1 2)', '(cond (#f 1) (%s => list))', '(begin 1 %s)', '(letrec ((f (lambda (n) (if (= n 0) %s (list (f (- n 1))))))) (f 12))',
        "(dynamic-wind (lambda () %s) (lambda () 'in) (lambda () 'out))", "(dynamic-wind (lambda () 'in) (lambda () 'body) (lambda () %s))", '(let-syntax-q %s)', '((begin %s car) 1)', '(let () (define-macro (mq . l) (car l)) (mq %s))', "(string->symbol (list %s))"]


def failing(r):
    e = r.choice(ERR)
    if '"bad' in e or '"chain' in e or 'use-modules' in e:
        return e            # not everything about files is without effect when it is done halfway through
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        w = r.choice(WRAP)
        e = w.replace('%s', e)
    return e


def failures(r):
    """[(form, what its events must be)]"""
    e = failing(r)
    c = r.random()
    if c < .45:
        return [(e, 'X')] * r.choice([1, 1, 1, 2, 5, 120])
    n = r.choice([1, 3, 120, 300])
    if c < .75:
        return [(f"(catch #t (lambda () {e} 'not-failed) (lambda (k . a) 'caught-q))", 'V')] * r.choice([1, 1, 3])
    if c < .9:
        return [(f"(do ((i 0 (+ i 1)) (l 'caught-q (catch #t (lambda () {e} 'not-failed) (lambda (k . a) 'caught-q)))) ((= i {n}) l))", 'V')]
    return [(f"(let ((r 'no)) (for-each (lambda (i) (set! r (catch #t (lambda () (list {e})) (lambda (k . a) (set! r i) 'caught-q)))) (list 1 2 3 4)) r)", 'V')]


STATE = [("(define (nest-q n) (if (= n 0) (throw 'deep-q) (catch 'other-q (lambda () (nest-q (- n 1))) (lambda l 'wrong))))", None), ("(catch 'deep-q (lambda () (nest-q 60)) (lambda l 'through))", ('V', 'through')),
         ("(call/cc (lambda (k) (dynamic-wind (lambda () (display 'i)) (lambda () (k 'left)) (lambda () (display 'o)))))", ('OV', 'io', 'left')), ('(eq? (current-module) here-q)', ('V', '#t')), ('(eq? (current-output-port) out-q)', ('V', '#t')),
         ("(let loop ((i 0) (l '())) (if (< i 40) (loop (+ i 1) (cons i l)) (vector-length (list->vector l))))", ('V', '40')), ("(begin (define deep-q (lambda (n) (if (= n 0) 0 (+ 1 (deep-q (- n 1)))))) (deep-q 300))", ('V', '300')),
         ('(let () (define-macro (mq a) `(list ,a 1)) (mq 2))', ('V', '(2 1)')), ('(read (open-input-string "(a b)"))', ('V', '(a b)')), ('(primitive-load "good.scm")', ('V', '1')),
         ('(catch #t (lambda () x-never-q) (lambda (k . a) k))', ('V', 'error')), ("(begin (define gq 1) (set! gq (+ gq 1)) gq)", ('V', '2'))]


def program(r):
    """(correct program, forms with the failures in between, the kind of each form: index in the program, 'X', 'V' or an expected event)"""
    p = gen.Gen(r, catch=r.choice([0, 4]), callcc=r.choice([0, 3]), wind=r.choice([0, 3]), delay=2, hash=1).program()
    forms, kind = [], []

    def put(f, k):
        forms.append(f)
        kind.append(k)
    for f in ('(define hq (make-hash-table))', "(hash-set! hq 'a 1)", '(define here-q (current-module))', '(define out-q (current-output-port))'):
        put(f, 'any')
    for i, f in enumerate(p):
        for _ in range(r.choice([0, 1, 1, 2])):
            for g, k in failures(r):
                put(g, k)
        put(f, i)
        if r.random() < .15:
            s, w = r.choice(STATE[1:])
            if 'nest-q' in s:
                put(STATE[0][0], 'any')
            put(s, w)
    for _ in range(r.choice([1, 3])):
        for g, k in failures(r):
            put(g, k)
    for s, w in STATE:
        put(s, w or 'any')
    return p, forms, kind


def groups(events):
    """Events per form: (text written, kind, value)"""
    out, t = [], ''
    for e in events:
        if e[0] == 'O':
            t += e[1]
        elif e[0] in 'VNX':
            out.append((t, e[0], e[1] if len(e) > 1 else ''))
            t = ''
        else:
            out.append((t, e[0], str(e[1:])))
            t = ''
    return out


def judge(forms, kind, want, got):
    """want: groups of the program alone; got: groups of all"""
    for i, (f, k) in enumerate(zip(forms, kind)):
        if i >= len(got):
            return f'nothing was observed of form {i}: {f}'
        t, e, v = got[i]
        if k == 'any':
            continue
        if k == 'X':
            if e != 'X':
                return f'{f} was to fail and gave {(t, e, v)}'
        elif k == 'V':
            if (e, v) != ('V', 'caught-q'):
                return f'{f} was to be caught and gave {(t, e, v)}'
        elif isinstance(k, tuple):
            w = (k[1], 'V', k[2]) if k[0] == 'OV' else ('', 'V', k[1])
            if (t, e, v) != w:
                return f'after failures {f} gives {(t, e, v)}, not {w}'
        else:
            w = want[k]
            if (t, e) != w[:2] or (e == 'V' and v != w[2]):
                return f'with failures between the forms, {f} gives {(t, e, v)}, not {w}'
    return None


def drive(chk, n, variant='plain', tag=0):
    def one(i):
        p, forms, kind = program(chk.rng('contain', tag, i))
        ev = diff.reference(p)[0]
        return p, forms, kind, ev
    todo = [x for x in check.pool_map(one, n) if x[3] is not None]
    chk.counts['outside_model'] += n - len(todo)
    runner = run.build(variant)

    def case(f):
        return run.Case(f, mode='forms', files=FILES, timeout=30)
    bad = []
    for (p, forms, kind, ev), x in zip(todo, run.run_cases(runner, [case(f) for _, f, _, _ in todo])):
        if x.skipped or x.timed_out:
            chk.inconclusive += 1
            continue
        chk.saw('\n'.join(forms))
        chk.counts['failed evaluations between correct ones'] += sum(k in ('X', 'V') for k in kind if isinstance(k, str))
        m = judge(forms, kind, groups(ev), groups(diff.observed(x))) or (None if x.done else f'the process ends: {x.ended()}')
        if m or (variant != 'plain' and check.sanitizer_report(x)):
            bad.append((p, forms, kind, ev, m or check.sanitizer_report(x)))
    for p, forms, kind, ev, m in bad[:3]:
        want = groups(ev)
        step = max(1, len(forms) // 2)
        budget = 60
        while step and budget > 0:              # fewer failures, the same disagreement
            i = 0
            while i < len(forms) and budget > 0:
                keep = [j for j in range(len(forms)) if not (i <= j < i + step) or not (isinstance(kind[j], str) and kind[j] in 'XV')]
                i += step
                if len(keep) == len(forms):
                    continue
                f, k = [forms[j] for j in keep], [kind[j] for j in keep]
                x = run.run_cases(runner, [case(f)])[0]
                budget -= 1
                mm = judge(f, k, want, groups(diff.observed(x))) or (None if x.done else f'the process ends: {x.ended()}')
                if mm:
                    forms, kind, m = f, k, mm
                    i -= step
            step //= 2
        chk.violation(m, case(forms), variant=variant)
    for _ in bad[3:]:
        chk.counts['further_violations'] += 1
