"""Programs that do what no correct program does: built-ins on any arguments, malformed special forms, runaway recursion, damaged programs."""
import os, re, time
import gen, qm, tmpl, diff

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTINS = [b for b in open(os.path.join(HERE, 'builtins.txt')).read().split() if b != 'exit']
CALLCC = ('call/cc', 'call-with-current-continuation')

VALS = [
    '0', '1', '-1', '2', '5', '100', '255', '256', '-9223372036854775808', '9223372036854775807', '4611686018427387904', '1/2', '-3/4', '1.5', '-0.0', '1e300', '-1e19',
    '""', '"abc"', '"x y"', '"(1 2"', '"1/0"', "'a", "'foo", ':key', '#\\a', '#\\space', '#\\nul', '#t', '#f', "'()", "'(1 2)", "'(a . b)", "'(1 2 . 3)", "'((a . 1) (b . 2))",
    "'((a . 1) . 5)", "'(5 (a . 1))", "'#()", "'#(1 2 3)", '(make-hash-table)', '(make-hash-table 1)', 'car', '+', 'map', 'apply', 'call/cc', 'force', '(lambda (x) x)',
    '(lambda () 1)', '(lambda r r)', '(lambda (a b . r) a)', "(lambda (x) (throw 'inner x))", '(lambda (x y) (car x))', '(delay 1)', "(delay (throw 'p))",
    '(call/cc (lambda (k) k))', '(current-module)', '(make-variable 1)', '(make-undefined-variable)', '(open-input-string "a b")', '(open-output-string)',
    '(read (open-input-string ""))', '(if #f #f)', '(current-output-port)', '(current-input-port)', '(current-error-port)', "(resolve-module '(a b))",
    '"/"', '"."', "'(quote x)", '(list (list 1) 2)', 'h', 'v1', 'l1', 's1', 'p1', 'c1', 'o1', 'x1', 'pr', "'cond", "'define", '(vector v1 l1)', '(list h)', '(string #\\a)', '(make-string 3 #\\z)',
    '(gensym)', '(list car)', '(cons 1 2)', "(string->symbol \"\")", "'|a b|", "(list 'a 1 \"s\" #\\c 2.5)", "'(define q 1)", "'(if)", "'(car 5)", "'(lambda (x) x)", 'm1',
]
SETUP = ['(define h (make-hash-table))', '(hash-set! h 1 2)', '(define v1 (vector 1 2 3))', '(define l1 (list 1 2 3))', '(define s1 (string-append "abc"))',
         '(define p1 (open-input-string "(1 2) x"))', '(define c1 (call/cc (lambda (k) k)))', '(define o1 (open-output-string))', '(define x1 5)', '(define pr (delay l1))',
         "(define-macro (m1 a) `(list ,a ',a))", '(define (id a) a)']
PROBE = ['(+ 1 2)', "(map (lambda (x) (* x x)) '(1 2 3))", "(catch 'z (lambda () (throw 'z 1)) (lambda (k . r) (list k r)))",
         '(let ((x 5)) (cons x "s"))', '(call/cc (lambda (k) (dynamic-wind (lambda () (display "<")) (lambda () (k 7)) (lambda () (display ">")))))',
         '(let loop ((i 0) (a (list))) (if (< i 4) (loop (+ i 1) (cons i a)) a))', "(catch #t (lambda () (car 5)) (lambda (k . a) 'error))",
         '(let ((p (open-input-string "(a b) 2"))) (read p) (read p))', "(begin (define (probe-f x) `(x ,x ,@(list x x))) (probe-f 1))", 'x1 ', '(display "end")']
PROBED = [('V', '3'), ('V', '(1 4 9)'), ('V', '(z (1))'), ('V', '(5 . "s")'), ('O', '<>'), ('V', '7'), ('V', '(3 2 1 0)'), ('V', 'error'), ('V', '2'), ('V', '(x 1 1 1)'), ('V', '5'), ('O', 'end')]


def bcall(r, depth=0):
    """A call of any built-in procedure with any arguments."""
    n = r.choice(BUILTINS)
    while n in CALLCC and r.random() < .9:
        n = r.choice(BUILTINS)
    args = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5])):
        if depth < 2 and r.random() < .12:
            args.append(bcall(r, depth + 1))
        else:
            args.append(r.choice(VALS))
    if n in ('close-output-port', 'close-input-port', 'set-current-output-port', 'set-current-error-port', 'set-current-input-port') and args and 'current' in args[0]:
        args[0] = 'o1'          # the runner's own channel
    if n == 'make-string' or n == 'make-vector':
        args = [a if not re.fullmatch(r'\d{7,}', a) else '9223372036854775807' for a in args]
    k = r.random()
    if k < .15:
        return f'(apply {n} (list {" ".join(args)}))'
    if k < .2 and args:
        return f'(map {n} (list {" ".join(args)}))'
    return f'({n}{"".join(" " + a for a in args)})'


SF = ("define define-macro define-module use-modules export re-export define-public let let* letrec call/cc lambda set! quote quasiquote if and or delay cond case "
      "begin for-each do map map-in-order apply call-with-values dynamic-wind unquote unquote-splicing catch throw else =>").split()
ATOM = ['x', 'y', 'f', 'zz', '1', '2.5', '#t', '#f', '"s"', '#\\a', '()', '#(1 2)', "'a", ',x', ',@x', '(x 1)', '(1)', '((x 1))', '((x))', '(x)', '((x 1) (y 2))', '(x . y)',
        '. x', '. 5', '. (1)', '(f x)', '(lambda (a) a)', '(lambda a a)', 'list', '(else)', '(else 1)', '(=> f)', '(1 => car)', '((1 2) x)', '((a . b) x)', '(#t => f)', '(#t =>)',
        '(#t => 5)', '(#t . 5)', 'else', '=>', '(x x)', '((x 1 2))', '(((f a) 1))', '((1 2))', '("x" 3)', ':key', '#:key', '(define q 1)', '(set! x 3)', '(begin)', '`(,x)', '`(,@x)',
        '`,@x', '(quote)', '(quasiquote)', '(unquote)', '(unquote x y)', '(quasiquote x y)', '(lambda)', '(let)', '(if)', '(cond)', '(define)', '(set!)', '((x . 1))', '((x 1 . 2))',
        '(x . 1)', '((x 1) . y)', '((x 1 (+ x 1)))', '((= x 3))', '((= x 3) . x)', '((i 0 (+ i 1) 7))', '(i 0)', '#(,x)', '(1 . 2)', '(a b . c)', '(a 1 b)', '(a a)', '((a) b)',
        '(guile)', '((guile))', '(ice-9 x)', '#t x', "'(1 2)", "'(1 . 2)", "'()", 'car', '(lambda () 1)', '(lambda (a b . c) a)', '(delay)', '(apply)', '(apply car)', '(map)',
        '(map car)', '(for-each)', '(dynamic-wind)', '(call/cc)', '(call-with-values)', '(do)', '(case)', '(and)', '(or)', '(cond (else))', '(case 1 (else))', '(case 1 ((1)))',
        '(case 1 (1 2))', '(case 1 ((1) . 2))', '``(,,x)', '`(1 `,(2 ,@x))', '(let loop)', '(let loop ((i 0)))', '(do ((i 0)) (#t))', '(define-macro (q))', '(define (g) 1)', '(define ((g a) b) a)']


def sform(r, d=0):
    h = r.choice(SF)
    parts = [sform(r, d + 1) if d < 2 and r.random() < .15 else r.choice(ATOM) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4]))]
    t = ' '.join([h] + [p for p in parts if not p.startswith('. ')])
    if r.random() < .08:
        t += ' ' + r.choice(['. x', '. 5', '. (1)'])
    return '(' + t + ')'


LAX = re.compile(r'call/cc|call-with-current-continuation|\bc1\b|exit|set-current-|define-module|set-module|close-|\bmap\b \(lambda \(k\)')


NAMES = set(BUILTINS) | set(SF) | {'list', 'probe-f', 'x1', 'g', 'loop', 'k', 'p'}
DEFINES = re.compile(r'\(\s*(?:define|define-public|define-macro|set!)\s+[(\s]*([^\s()]+)')


def spoils(f):
    """Does the form give a name that the probes use another meaning, or leave the module?"""
    if f == '(define x1 5)':
        return False
    return any(n in NAMES or n[0] in "'`," for n in DEFINES.findall(f)) or 'define-module' in f or 'use-modules' in f or 'define-public' in f or 'set-current' in f or 'set-module' in f or 'module-use!' in f


def protect(r, f):
    """The forms of a program that runs f: bare, or where the error has to reach a catch."""
    k = r.random()
    if k < .35:
        return [f], False
    if k < .65:
        return [f"(catch #t (lambda () {f}) (lambda (k . a) 'caught))"], True
    if k < .75:
        return [f"(catch #t (lambda () (dynamic-wind (lambda () #t) (lambda () {f}) (lambda () #t))) (lambda l 'caught))"], True
    if k < .85:
        return [f'(define (g) {f})', "(catch #t g (lambda (k . a) 'caught))", '(g)'], False
    if k < .93:
        return [f"(catch #t (lambda () (let ((v (list {f}))) v)) (lambda (k . a) (list 'caught (symbol? k))))"], True
    return [f'(begin {f})', f'(list 1 (let* ((q {f})) 2))'], False


def calls(r, n=6):
    fs, caught = list(SETUP), []
    for _ in range(n):
        new, c = protect(r, bcall(r))
        if c:
            caught.append(len(fs))
        fs += new
    return fs, caught


def forms(r, n=4):
    fs, caught = ['(define x 1)', '(define (f . a) a)', '(define x1 5)'], []
    for _ in range(n):
        f = sform(r)
        while spoils(f) and r.random() < .97:
            f = sform(r)
        new, c = protect(r, f)
        if c:
            caught.append(len(fs))
        fs += new
    return fs, caught


TOK = re.compile(r'"(?:\\.|[^"\\])*"|#\\[^\s()]+|[()]|[\'`]|,@?|[^\s()\'`,"]+')


def mutate(r, text, k=None):
    """A program text with a few tokens removed, doubled, exchanged or replaced; the parentheses stay balanced."""
    t = TOK.findall(text)
    close = {}
    st = []
    for i, x in enumerate(t):
        if x in ('(', '#('):
            st.append(i)
        elif x == ')' and st:
            close[st.pop()] = i
    for _ in range(k or r.randrange(1, 4)):
        if not t:
            break
        # the span of a datum
        i = r.randrange(len(t))
        for _ in range(20):
            if t[i] not in (')', "'", '`', ',', ',@'):
                break
            i = r.randrange(len(t))
        d = 0
        j = i
        while j < len(t):
            d += t[j].endswith('(') and not t[j].startswith('"')
            d -= t[j] == ')'
            j += 1
            if d <= 0:
                break
        c = r.random()
        span = t[i:j]
        if c < .25:
            t[i:j] = []
        elif c < .4:
            t[i:j] = span + span
        elif c < .7:
            t[i:j] = TOK.findall(r.choice(VALS[:60] + ATOM))
        elif c < .8:
            a = r.randrange(len(t))
            if t[a] not in ('(', ')'):
                t[i:j] = [t[a]]
        elif c < .9:
            t[i:j] = ['('] + span + [')']
        else:
            t[i:j] = span[1:-1] if len(span) > 2 and span[0] == '(' else []
    return ' '.join(t)


def judge(fs, caught, x, state=True):
    """What is wrong with a run of fs + PROBE (None: nothing)."""
    groups, cur = [], []
    for e in x.events:
        if e[0] == 'I':
            groups.append((cur, e[1:]))
            cur = []
        else:
            cur.append(e)
    if not x.done:
        i = len(groups)
        allf = fs + PROBE
        return f'{x.ended()} in form {i}: {allf[i] if i < len(allf) else "?"}'
    if len(groups) != len(fs) + len(PROBE):
        return f'{len(groups)} results for {len(fs) + len(PROBE)} forms'
    spoilt = any(spoils(f) for f in fs)
    for i, (g, st) in enumerate(groups):
        if not any(e[0] in 'VNXP' for e in g):
            return f'no value and no error for form {i}'
        if i in caught and not spoilt and any(e[0] == 'X' for e in g):
            return f'the error of form {i} was not caught: {[e for e in g if e[0] == "X"]}'
        if state and any(st):
            return f'after form {i} (catches, extents, calls) are still active: {st}'
    if spoilt:
        return None
    tail = []
    for g, _ in groups[len(fs):]:
        for e in g:
            if e[0] == 'O':
                tail.append(('O', diff.SYMTBL.sub('', e[1])))
            elif e[0] in 'VXP':
                tail.append((e[0], e[1]))
    if tail != PROBED:
        k = next((i for i, (a, b) in enumerate(zip(tail, PROBED)) if a != b), min(len(tail), len(PROBED)))
        return f'afterwards: expected {PROBED[k:k+1]}, observed {tail[k:k+1]}'
    return None


NOLOOP = dict(named=0, do=0, gen=0, callcc=0, delay=2, macro=2, catch=4, wind=2, hash=0, vec=4, str=4, qq=3)


def damaged(r):
    """A program of another generator with damage to some forms."""
    c = r.randrange(4)
    if c == 0:
        p = tmpl.program(r)
    elif c == 1:
        p = qm.QM(r, **NOLOOP).program(5)
    else:
        p = gen.Gen(r, **NOLOOP).program(5)
    out, caught = ['(define x1 5)'], []
    for f in p:
        if r.random() < .6:
            f0, f = f, mutate(r, f)
            if spoils(f) and not spoils(f0):
                continue
            if re.search(r'\((named|do|let)\s+[a-z0-9]+\s*\(|\(do |define-module|set-current|close-|current-(out|in|err)|exit|x1', f) or f.count('(') != f.count(')') or '(' not in f:
                continue
            if re.search(r'make-(vector|string)', f) and re.search(r'\d{7}', f):
                continue            # would only take memory
            new, c = protect(r, f) if r.random() < .5 and not f.startswith('(define') else ([f], False)
            if c:
                caught.append(len(out))
            out += new
        else:
            out.append(f)
    return out, caught


CTX = ['(+ 1 @)', '(let ((a @)) a)', "(map (lambda (x) @) '(1))", "(for-each (lambda (x) @) '(1))", "(catch 'zz (lambda () @) (lambda (k . a) 1))",
       '(dynamic-wind (lambda () 1) (lambda () @) (lambda () 2))', '(begin (set! g @) g)', '(if @ 1 2)', '(cond (@ => list))', '(cond (@ 1) (else 2))', '(force (delay @))',
       '(apply list (list @))', '(with-output-to-string (lambda () (display @)))', '(call-with-values (lambda () @) list)',
       "(sort (list 2 1) (lambda (a b) @))", '(vector @ n)', '`(1 ,@)', '`(1 ,@@)', '`#(1 ,@)', '(case @ ((1) 2) (else 3))', '(do ((i @ 1)) (#t i))', '(letrec ((q @)) q)',
       '(let loop ((i @)) i)', '(let* ((a 1) (b @)) b)', '(string->symbol @)', '((lambda (x . y) x) @ 2)', '(and 1 @ 2)', '(or #f @ 2)', '(list 1 @)', '(cons @ 2)', '(equal? @ 1)',
       "(eval (list 'f n) (current-module))", "(eval '(+ 1 (f 1)) (current-module))", '(apply f (list n))', '(begin (define z @) z)', '(let () (define (w) @) (+ 1 (w)))', '(m2 @)',
       '(call-with-output-string (lambda (p) @))', '(string-append "a" @)', '(hash-set! (make-hash-table) @ 1)', '(not @)', "(assoc @ '((1 2)))", '(values @)', '(when2 @)',
       '(f @)', '((f n) 1)', '((begin @ f) n)', "(catch #t (lambda () @) (lambda (k . a) (throw k a)))", "(catch #t (lambda () @) (lambda (k . a) n))", '(lambda2 @)',
       "(let ((p (delay @))) (list (force p)))", "(with-input-from-string \"x\" (lambda () @))", "(throw @)", "(map f (list n))", "(map + (list @) '(1))"]
DEEP = ['(list l)', "(cons 'quote (list l))", "(list 'quasiquote l)", "(list 'list l)", "(cons l 'a)", '(vector l)', "(list 'if l 1 2)", "(list 'lambda '() l)", '(list 1 l 2)', '(cons l l2)',
        "(list 'unquote l)", "(list 'begin l)", "(list 'let '((x 1)) l)", '(delay l)' , "(list 'define 'qq l)", "(list 'quasiquote (list 'unquote l))"]
DEEPOP = ['(begin (display l) 1)', '(equal? l m)', '(string-length (with-output-to-string (lambda () (write l))))', '(eval l (current-module))', "(eval (list 'quasiquote l) (current-module))",
          '(macroexpand l)', '(macroexpand-1 l)', '(hash-set! (make-hash-table) l 1)', '(hash-ref (make-hash-table) l)', "(assoc l (list (list m)))", '(member l (list m))', '(length l)',
          '(list-copy l)', '(append l (list 1))', '(reverse l)', '(list->vector l)', '(apply list l)', '(object->string l)', '(sort (list l m) (lambda (a b) (equal? a b)))', '(throw \'a l)',
          '(error "x" l)', '(eq? l m)', '(eqv? l m)', '(symbol? l)', 'l', '(car l)', "(hash-create-handle! (make-hash-table) l 1)", '(case 1 ((l) 2) (else 3))', "(vector-length l)"]


def deep(r):
    """Recursion without end through random contexts; data and texts nested deeper than the stack."""
    k = r.random()
    fs = ['(define x1 5)', '(define g 0)', "(define-macro (m2 a) `(list ,a 1))", '(define (when2 x) x)', '(define (lambda2 x) x)']
    if k < .6:
        body = '(f (+ n 1))'
        for _ in range(r.choice([1, 1, 2, 3])):
            c = r.choice(CTX)
            body = c.replace('@', body) if '@@' not in c else c.replace(',@@', ',@' + body)
        fs.append(f'(define (f n) {body})')
        fs += ['(f 0)', "(catch #t (lambda () (f 0)) (lambda (k . a) 'caught))", "(catch #t (lambda () (let ((q (f 0))) (f 1))) (lambda (k . a) 'caught))"]
        caught = [len(fs) - 1, len(fs) - 2]
    elif k < .9:
        d = r.choice(DEEP)
        n = r.choice([3000, 20000, 60000])
        fs += ["(define l 5)", f'(define l2 1)', f"(do ((i 0 (+ i 1))) ((= i {n})) (set! l {d}))", '(define m 5)', f"(do ((i 0 (+ i 1))) ((= i {n})) (set! m {d.replace(' l)', ' m)').replace('(cons l', '(cons m')}))"]
        caught = []
        for _ in range(3):
            op = r.choice(DEEPOP)
            if r.random() < .5:
                fs.append(f'(begin {op} 1)')
            else:
                fs.append(f"(catch #t (lambda () {op} 1) (lambda (k . a) 'caught))")
                caught.append(len(fs) - 1)
        fs += ['(set! l 0)', '(set! m 0)']
    else:
        n = r.choice([1000, 30000, 100000])
        o = r.choice(['(', "'", '`', '#(', '(a . (', '(quote (', "'(", '`(1 ,(', '(let ((x (', '(lambda (', '(if ', '(begin (', ',', '`,', "',", ',(', '(+ 1 (', ' #( ( '])
        t = o * n
        if r.random() < .6:
            t += 'a' + ')' * t.count('(')
        fs.append(t)
        if r.random() < .5:
            fs.append(f"(catch #t (lambda () (read (open-input-string (string-append {' '.join([chr(34) + o * 500 + chr(34)] * 60)}))) 1) (lambda (k . a) 'caught))")
        caught = []
    return fs, caught


HEAP = [
    ["(define l (list 1 2 3))", "(do () (#f) (set! l (append l l)))"], ["(define l '())", "(do () (#f) (set! l (cons (vector->list (make-vector 100000 1)) l)))"],
    ["(define l '())", "(do () (#f) (set! l (cons (string->list (make-string 100000 #\\a)) l)))"], ["(define l (list 1 2 3))", "(do () (#f) (set! l `(1 ,@l ,@l ,l)))"],
    ["(define l (list 1 2))", "(do () (#f) (set! l (apply list l l (append l l))))"], ["(define l (list 1.5 2/3))", "(do () (#f) (set! l (map (lambda (x) (list x x)) (append l l))))"],
    ["(define (f l) (f (append l l)))", "(f (list 1 2 3))"], ["(define l (list 1 2 3))", "(do () (#f) (set! l (append (list-copy l) (reverse l))))"],
    ["(define l (list 3 1 2))", "(do () (#f) (set! l (sort (append l l) <)))"], ["(define l '(1 2 3))", "(do () (#f) (set! l (vector->list (list->vector (append l l)))))"],
    ["(define s \"abc\")", "(do () (#f) (set! s (string-append s s)))"], ["(define l (list #\\a #\\b))", "(do () (#f) (set! l (append l (string->list (list->string l)))))"],
]


def heap(r):
    """Programs that keep ever more, until there is no memory."""
    a, b = r.choice(HEAP)
    k = r.random()
    fs = ['(define x1 5)', a]
    if k < .5:
        fs += [f"(catch #t (lambda () {b}) (lambda (k . a) 'caught))", '(define l 0)', '(define h 0)', '(define s 0)']
        return fs, [2]
    return fs + [b, '(define l 0)', '(define h 0)', '(define s 0)'], []


def drive(chk, kind, n, variant='plain', stack=64, timeout=20, sched=None, tag='', batch=2000):
    """Runs n programs of a kind; violations: the process dies, no outcome for a form, an error that no catch
    receives, work left active, an interpreter that does not work afterwards, a sanitizer report."""
    import check, run
    make = globals()[kind]
    run.STACK = stack << 20
    runner = run.build(variant)
    for lo in range(0, n, batch):
        progs = check.pool_map(lambda i: make(chk.rng(kind, tag, lo + i)), min(batch, n - lo))
        cases = [run.Case(p + PROBE, timeout=timeout, **(sched(lo + j) if sched else {})) for j, (p, _) in enumerate(progs)]
        t = time.time()
        rs = run.run_cases(runner, cases)
        chk.counts[f'{kind} seconds'] += round(time.time() - t)
        bad, hung = [], []
        for (p, caught), c, x in zip(progs, cases, rs):
            if x.skipped:
                chk.counts['not run'] += 1
                continue
            for e in x.events:
                chk.counts[f'{kind} event {e[0]}'] += 1
            chk.counts['collections'] += x.stats[3]
            chk.saw('\n'.join(f[:400] for f in p))
            rep = check.sanitizer_report(x) if variant != 'plain' else None
            if x.timed_out and not rep:
                hung.append((p, c, 'does not end'))
                continue
            w = rep or judge(p, caught, x)
            if w:
                bad.append((p, c, w, caught))
        if len(hung) > max(6, len(progs) // 60):
            for p, c, w in sorted(hung, key=lambda b: len(''.join(b[0])))[:2]:
                chk.violation(f'{len(hung)} of {len(progs)} programs do not end, among them this', c, variant=variant)
        else:
            chk.inconclusive += len(hung)
        for p, c, w, caught in sorted(bad, key=lambda b: len(''.join(b[0])))[:3]:
            p, c, w = shrink(p, caught, c, w, runner, variant)
            chk.violation(w[:1500], c, variant=variant)
        for _ in bad[3:]:
            chk.counts['further_violations'] += 1
        if chk.violations:
            return


def shrink(p, caught, c, w, runner, variant):
    """Fewer forms, still something wrong."""
    import check, run
    end = time.time() + 60
    cs = {p[i] for i in caught}

    def mk(q):
        return run.Case(q + PROBE, mode=c.mode, period=c.period, seed=c.seed, poison=c.poison, timeout=c.timeout)
    while time.time() < end:
        cands = [p[:i] + p[i + 1:] for i in range(len(p))]
        if len(p) > 8:
            cands = [p[:len(p) // 2], p[len(p) // 2:]] + cands
        cands = [q for q in cands if '(define x1 5)' in q]        # a probe reads it
        if not cands:
            break
        rs = run.run_cases(runner, [mk(q) for q in cands])
        for q, x in zip(cands, rs):
            if x.timed_out:
                continue
            qw = (check.sanitizer_report(x) if variant != 'plain' else None) or judge(q, [i for i, f in enumerate(q) if f in cs], x)
            if qw:
                p, w = q, qw
                break
        else:
            break
    return p, mk(p), w


def longs(r):
    """Texts of every length where fixed-size buffers would be: names, messages, numbers, paths."""
    def n():
        return r.choice([r.randrange(1, 70), 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 8192, 20000]) + r.randrange(-2, 3)

    def sym():
        return r.choice('abxyz') * max(1, n())

    def s():
        return '"' + r.choice(['a', '%s', '%d%n', '\\\\', '\\n', '~a', '/', 'x/', '\\"', ' ', '(', '1', '{"']) * max(1, n() // 2) + '"'

    def num():
        return r.choice(['', '-', '1', '#x', '1.', '0.', '1/', '1e']) + r.choice('0123456789') * max(1, n())

    def val():
        return r.choice([lambda: s(), lambda: "'" + sym(), lambda: num(), lambda: f"'({sym()} {s()})", lambda: f'(string->symbol {s()})', lambda: f'#({s()} {sym()})',
                         lambda: "'" + '(' * r.randrange(1, 200) + 'a' + ')' * 0, lambda: f'(make-string {max(1, n())} #\\b)', lambda: f'(list {s()} {s()})', lambda: '#\\' + sym(),
                         lambda: f':{sym()}', lambda: f"'{sym()}.{sym()}", lambda: f'`(a ,{s()})'])()
    fs, caught = ['(define x1 5)'], []
    for _ in range(5):
        v = val()
        if v.count('(') != v.count(')'):
            v += ')' * (v.count('(') - v.count(')'))
        f = r.choice(['{v}', '(car {v})', '(vector-ref {v} 1)', '({v})', '({y} 1)', '{y}', '(error {s})', "(error 'foo {s} {v})", '(error {s} {v} {v})', '(throw {v})', "(throw '{y} {v} {v})",
                      '(string->number {s})', '(string->number {v} 2)', '(number->string {v} 2)', '(+ 1 {v})', '(define {y} {v})', '(set! {y} {v})', '(let (({y} {v})) ({y}))', '(open-input-file {s})',
                      '(load {s})', '(primitive-load {s})', '(resolve-module \'({y} {y}))', "(use-modules ({y} {y}))", '(with-output-to-string (lambda () (write {v}) (display {v})))', '(write {v})',
                      '(string->symbol {s})', '(read (open-input-string {s}))', '(display {v})', '(string-append {s} {s})', '(let loop (({y} 1)) ({y} {v}))', '(lambda ({y}) {v} . {y})', '((lambda ({y} {y}) 1) {v})',
                      '(define-macro ({y} a) {v})', '(begin (define ({y} a) a) ({y}))', '(string-ref {s} 999999)', '(hash-ref {v} {v})', '(assq-ref {v} {v})', '(symbol->string {v})', '(module-ref (current-module) \'{y})',
                      '(list-ref (list {v}) 7)', '(apply {v} {v})', '(case {v} (({y}) 1) ({v} 2))', '(cond ({v} => {v}))', '(exact->inexact {v})', '(* {v} 1.5)', '(expt 2 {v})', '(abs {v})', '(file-exists? {s})',
                      "(catch '{y} (lambda () (throw '{y} {v})) (lambda (k . a) {v}))", '(make-variable {v})', '(delay {v})', '(list car (lambda ({y}) {v}) (delay {v}) (current-module) (open-input-string {s}))',
                      '(procedure-name (lambda ({y}) 1))', '(begin (define ({y} a) a) {y})', '(begin (define ({y} a) a) (procedure-name {y}))', '(format #f {s} {v})', '(define-module ({y}))' if 0 else '(list {v})'])
        f = f.replace('{v}', v).replace('{s}', s()).replace('{y}', sym())
        if f.startswith('(define-module'):
            continue
        new, c = protect(r, f) if not f.startswith('(define') else ([f], False)
        if c:
            caught.append(len(fs))
        fs += new
    return fs, caught


BYTES = [bytes([b]).decode('latin-1') for b in range(1, 256) if b not in (0x1c, 0x1d, 0x1e, 0x1f, 2, 3, 4)]


def text(r):
    """A text that is almost, or not at all, a program: one form of the case."""
    k = r.random()
    if k < .2:
        return ''.join(r.choice(BYTES) for _ in range(r.randrange(1, 60)))
    if k < .5:
        return ''.join(r.choice(['(', ')', '(', ')', '#(', "'", '`', ',', ',@', '"', '"', '\\', '#\\', '#\\a', '#\\space', '#', '#t', '#f', '#:', ':', '.', ' . ', '..', '...', '|', ';', '\n', ' ', '\t', '\r', '#|', '|#', '#!', '!#', '#;',
                                 'a', 'x', '1', '-', '+', '1.5', '-.5', '1e', '1e5', '1/2', '1/', '/', '#x1F', '#b2', '#e', '\\x41;', '\\n', '\\101', '[', ']', '{', '}', '\xe9', '\x80', '\xff', '\x7f', '\x01', 'define', '\\', '"a\\', '#\\(', '@', '<', '#<', '\x0c']
                                + BYTES[:3]) for _ in range(r.randrange(1, 40)))
    p = r.choice([tmpl.program, lambda r: qm.QM(r).program(3), lambda r: gen.Gen(r).program(3)])(r)
    t = '\n'.join(p)[:3000]
    a = r.randrange(len(t)) if r.random() < .5 else 0
    t = t[a:a + r.randrange(1, 400)]
    for _ in range(r.randrange(0, 5)):
        i = r.randrange(len(t) + 1)
        c = r.random()
        if c < .4:
            t = t[:i] + t[i + 1:]
        elif c < .8:
            t = t[:i] + r.choice(r.choice([BYTES, ['(', ')', '"', "'", '#', '\\', '.', ';', '|', '`', ',']])) + t[i:]
        else:
            j = r.randrange(len(t) + 1)
            t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
    return t or ' '


EVIL = re.compile(r'\b(do|let|loop|named)\b|exit|set-current|close-|open-output-file|delete|system|make-(string|vector)|call/cc|call-with-current')


def texts(r):
    """Texts given to the reader: parsed as data by read, and quoted."""
    fs = ['(define x1 5)']
    for _ in range(4):
        t = text(r)
        if r.random() < .5 or EVIL.search(t):
            q = t.replace('\\', '\\\\').replace('"', '\\"')
            fs.append(f'(let ((p (open-input-string "{q}"))) (catch #t (lambda () (let loop ((x (read p)) (n 0)) (if (or (eof-object? x) (> n 200)) n (loop (read p) (+ n 1))))) (lambda (k . a) -1)))')
        else:
            fs.append(t)
    return fs, []
