"""Programs with one failing call at a known place, and what the error has to say about it."""
import entry

MARK, SPAN, ENDSPAN, HOLE = '\x05', '\x06', '\x07', '\x04'

# expressions that return an integer; some leave extents, evaluate other files or recover from errors on the way
VALUES = ['1', '7', '(+ 1 2)', '(let ((x 1)) x)', "(catch #t (lambda () (car 5)) (lambda a 3))", '(call/cc (lambda (k) (+ 1 (k 4))))',
          "(call/cc (lambda (k) (for-each (lambda (x) (k x)) '(1 2))))", '(if #t 1 (car 2))', '(usr1 5)', '(mac1 3)', '(force (delay 2))', "(eval '(+ 1 2))",
          '(dynamic-wind (lambda () 1) (lambda () 2) (lambda () 3))', '(car (map (lambda (x) x) (list 1)))', '(begin (load "other.scm") 1)', "(apply + '(1 2))",
          "(catch 'a (lambda () (throw 'a 1)) (lambda a 2))", '(let lp ((i 0)) (if (< i 3) (lp (+ i 1)) i))', '(do ((i 0 (+ i 1))) ((= i 2) i))', '(length `(1 ,(+ 1 1) ,@(list 3)))',
          '(call-with-values (lambda () (values 1 2)) +)', '(let () (define z 3) z)', '(let ((x 1)) (set! x 2) x)', '(cond (#f 1) (else 2))', '(case 3 ((3) 4) (else 5))', '(and 1 2)',
          '(or #f 2)', '(letrec ((f (lambda (n) (if (= n 0) 0 (f (- n 1)))))) (f 3))', '(mac2 1 2 3)', "(eval '(begin (usr1 1)))", '(other-procedure 2)',
          "(catch #t (lambda () (other-failing 1)) (lambda a 6))", "(catch #t (lambda () (undefined-name)) (lambda a 6))", "(catch #t (lambda () (usr)) (lambda a 6))",
          "(call/cc (lambda (k) (catch #t (lambda () (k 1)) (lambda a 2))))", "(call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k 2)) (lambda () (usr1 3)))))",
          "(string-length \"a ; (b\")", "(char->integer #\\()", "(vector-ref #(1 2) 0)",
          "(length '(#\\a #\\space #\\) #\\1))", "(char->integer #\\newline)", "(length '(#:key #{a b}# #(1 \"x\n\")))", "(begin (load \"nothing.scm\") 1)",
          "(begin (for-each usr1 '(1 2)) 1)", "(catch #t (lambda () (for-each car '(1))) (lambda a 6))"]

# % is a value
FAILS = ['(car %)', '(cdr %)', '(vector-ref (vector %) 9)', '(string-length %)', "(+ % 'a)", 'undefined-var', '(quotient % 0)', '(hash-ref % %)', '(usr)', '((lambda (x) x))',
         "(list-ref '(1) 4)", '(map car %)', '(string-append "a" %)', '(symbol->string %)', '(undefined-fn 1)', '(% 5)', '(integer->char "x")', "(number->string 'x)", '(vector-set! (vector) % 1)',
         "(reverse 'x)", "(append '(1) % '(3))", "(list-tail '(1) 3)", '(substring "abc" 2 1)', '(variable-ref %)', '(string->number %)', "(max 'a %)", '(string->symbol %)', '(hash-set! % 1 1)',
         "(make-vector 'a)", '(read-char %)', '(char-upcase %)', '(string-ref "abc" 9)', '((begin % car) %)', '((if #t cdr car) %)', "(apply car '(5))", '(usr2 1 2)', "(length 'a)",
         "(cadr '(1))", "(set-car! % %)", "(vector-length %)", "(- 'a)", "(* % \"2\")", "(< % 'b)", "(char->integer %)", "(string=? \"a\" %)", "(for-each car '(1))", "(procedure-name %)",
         "(defined? %)", "(list->vector %)", "(string-ref % 0)", "(hashq-set! % 'a 1)", '(undefined-fn)', '(usr1)', '(usr1 1 2 3)', "((lambda (x . y) x))"]
# after a macro call the failing name alone has no place of its own
ATOMS = {'undefined-var'}

# @ is the hole; % a value
CTX = ['(begin % @)', '(begin @ 1)', '(if @ 1 2)', '(if #t @ 2)', '(if (= 1 2) 1 @)', '(let ((x %)) @)', '(let ((x @)) x)', '(let* ((x %) (y @)) y)', '(let* ((x %) (y 2)) @)',
       '(letrec ((x %)) @)', '(letrec ((f (lambda () @))) (f))', '(let lp ((i 0)) (if (< i 1) (lp (+ i 1)) @))', '(let lp ((i @)) i)', '(do ((i 0 (+ i 1))) ((= i 1) @))',
       '(do ((i 0 (+ i 1))) ((= i 1) 1) @)', '(do ((i 0 @)) ((= i 1) 1) 1)', '(do ((i @ 1)) ((= i 1) 1) 1)', '(do ((i 0 (+ i 1))) (@ 1))', '(cond (@ 1))', '(cond (#t % @))',
       '(cond (#f 1) (else 2 @))', '(cond (% => (lambda (x) @)))', '(cond ((= 1 2) %) (@ => list))', '(case @ ((1) 2))', '(case 1 ((1) % @))', '(case 1 ((2) 3) (else @))',
       '(and % @)', '(or #f @)', '(and @ 1)', '(or @ 1)', '(and 1 (or #f (if #t @ %)))', '(usr1 @)', '(list % @ 2)', '(list @)', '(+ % @)', '((lambda (x) @) %)', '((lambda (x) % @) 1)',
       '((lambda (x) x) @)', '(let () (define q @) q)', '(let ((q %)) (set! q @))', '(let () (define (q) @) (q))', "(map (lambda (x) @) '(1))", "(for-each (lambda (x) @) '(1 2))",
       "(map (lambda (x y) @) '(1) '(2))", "(apply (lambda (x) @) '(1))", '(call/cc (lambda (k) @))', '(call/cc (lambda (k) (k @)))', '(dynamic-wind (lambda () %) (lambda () @) (lambda () %))',
       '(dynamic-wind (lambda () @) (lambda () 1) (lambda () 1))', '(dynamic-wind (lambda () 1) (lambda () %) (lambda () @))', '(call-with-values (lambda () @) list)',
       '(call-with-values (lambda () %) (lambda (x) @))', '(force (delay @))', '`(1 ,@)', "(eval '@)", "(eval '(let ((x %)) @))", "(catch 'other (lambda () @) (lambda a 1))",
       "(catch #t (lambda () (throw 'a)) (lambda a @))", '(usr3 (lambda () @))', '(usr4 (lambda () @))', "(hash-fold (lambda (k v a) @) 0 a-table)", '(let ((f (lambda () @))) (usr1 %) (f))',
       '(vector @ 1)', '`#(% (,@))', "(list-copy-of (list @ %))", "(let ((p (delay (begin % @)))) (force p))", '(let* () % @)', '(begin (begin (begin @)))', '(car (list (begin @)))']
MACROCTX = ['(mac1 @)', '(mac2 % @)', '(mac2 @ %)', '(mac3 % @)', '(mac3 @ %)', '(mac4 (a @) %)', '(mac2 1 2 (mac1 @))']

PRELUDE = """(define (usr x) x)
(define (usr1 x) x)
(define (usr2) 1)
(define (usr3 f) (f))
(define (usr4 f) (let ((v (f))) (list v)))
(define (list-copy-of l) (map (lambda (x) x) l))
(define-macro (mac1 x) `(car (list ,x)))
(define-macro (mac2 a . b) `(let ((z ,a)) ,@b))
(define-macro (mac3 a b) (list 'begin b a))
(define-macro (mac4 a b) `(let ((v ,(cadr a))) (if v ,b v)))
(define a-table (make-hash-table 3))
(hash-set! a-table 1 1)
"""
OTHER = "\n\n(define (other-procedure x)\n  (if (= x 0)\n      0\n      (other-procedure (- x 1))))\n(define (other-failing x)\n   (string-length x))\n"


class L:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.defs = {'p.scm': [], 'q.scm': []}

    def val(self, d=0):
        r = self.r
        v = r.choice(VALUES)
        while r.random() < .3 and d < 3:
            v = r.choice(['(+ 0 %)', '(usr1 %)', '(let ((w %)) w)', '(if % 1 2)', "(catch #t (lambda () (vector-ref % 1)) (lambda a 2))", '(begin % 2)', '(call/cc (lambda (k) (k %)))']).replace('%', v)
            d += 1
        return v

    def fill(self, t):
        while '%' in t:
            t = t.replace('%', self.val(), 1)
        return t

    def failing(self):
        """An expression somewhere in which the failing call is marked; definitions it needs go to self.defs."""
        r = self.r
        x = MARK + self.fill(r.choice(FAILS))
        macro = False
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
            c = r.random()
            if c < .1 and not macro:
                if x[1:] in ATOMS or SPAN in x:
                    continue
                y = self.fill(r.choice(MACROCTX).replace('@', HOLE)).replace(HOLE, x, 1)
                macro = MARK in x
                x = SPAN + y + ENDSPAN if macro else y
            elif c < .25:        # in a procedure, here or in another file
                self.n += 1
                body = x if r.random() < .5 else self.fill('% ') + x
                self.defs[r.choice(['p.scm', 'q.scm'])].append(f'(define (proc{self.n} a) {body})')
                macro = False
                x = f'(proc{self.n} {self.val()})'
            else:
                x = self.fill(r.choice(CTX).replace('@', HOLE)).replace(HOLE, x, 1)
        return x


def place(t, ch):
    k = t.index(ch)
    before = ''.join(c for c in t[:k] if c not in MARK + SPAN + ENDSPAN)
    return before.count('\n') + 1, len(before) - before.rfind('\n')


def program(r):
    """(files, number of results, [(file, first place, last place or None)])"""
    texts = {'p.scm': [PRELUDE], 'q.scm': []}
    want = []
    k = r.choice([1, 2, 4, 8])
    seen = []
    for i in range(k):
        g = L(r)
        g.n = i * 100
        x = g.failing()
        for f in ('q.scm', 'p.scm'):
            texts[f] += [entry.layout(r, d, .15) for d in g.defs[f]]
        form = f'(define r{i} (catch #t (lambda () {x}) (lambda (k . a) (if (pair? a) (car a) a))))'
        texts['p.scm'].append(entry.layout(r, form, r.choice([.06, .3])))
        # marks of this program become unique
        for f in texts:
            texts[f] = [t.replace(MARK, f'{MARK}{i};').replace(SPAN, f'{SPAN}{i};').replace(ENDSPAN, f'{ENDSPAN}{i};') if not any(t is s for s in seen) else t for t in texts[f]]
        seen = [t for f in texts for t in texts[f]]
    joined = {f: r.choice(['\n', '\n\n', ' ', '\n ; a note\n  ']).join(ts) for f, ts in texts.items()}
    joined['p.scm'] = '(load "other.scm") (load "q.scm")\n' + joined['p.scm']
    import re
    res = {}
    for f, t in joined.items():
        line, col, out, spans = 1, 1, [], {}
        i = 0
        while i < len(t):
            m = re.compile('[\x05\x06\x07](\\d+);').match(t, i)
            if m:
                res.setdefault(int(m.group(1)), {})[t[i]] = (f, line, col)
                i = m.end()
                continue
            out.append(t[i])
            if t[i] == '\n':
                line, col = line + 1, 1
            else:
                col += 1
            i += 1
        joined[f] = ''.join(out)
    for i in range(k):
        want.append((res[i].get(SPAN, res[i][MARK]), res[i].get(ENDSPAN)))
    joined['other.scm'] = OTHER
    joined['nothing.scm'] = ' ; nothing\n'
    return joined, want
