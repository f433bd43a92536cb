"""Library-call programs: sequences of calls to the built-in procedures of an area on typed and hostile
arguments, over variables that share structure, with the whole state observed at the end."""
from fractions import Fraction

INTS = [0, 1, -1, 2, -2, 3, 5, 7, 10, -10, 12, 36, 60, 100, -255, 255, 256, 1000, 65535, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 32 + 1,
        2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62, -2 ** 62, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 2 ** 63 - 2, 3037000499, 3037000500, 10 ** 18, 6 * 10 ** 9]
FLOATS = ['0.0', '-0.0', '0.5', '1.5', '-2.5', '1.0', '2.0', '-3.0', '3.25', '1e3', '1e10', '0.001', '1e-3', '100.125', '1e15', '1e17', '1e18',
          '1e20', '9007199254740992.0', '9007199254740993.0', '1e100', '1e-10', '1e300', '12345.678', '0.1', '0.2', '3.0e5', '4.5e-7', '-1e19', '9.2e18', '-9223372036854775808.0', '9223372036854775808.0']
CHARS = ['a', 'z', 'A', 'Z', 'b', 'M', '0', '9', '5', 'space', 'newline', 'tab', '!', '~', '@', '[', '`', '{', '/', ':', '_', '(', ')', ';', '"', '#', '\\', "'"]
SYMS = ['a', 'b', 'c', 'foo', 'bar', 'list', 'car', 'x1', '+', '-', '...', 'a-b', '->x', 'set!', 'null?', '<=?', 'A', 'Foo', 'if', 'lambda', 'else', '1+']
STRS = ['', 'a', 'b', 'ab', 'abc', 'Abc', 'ABC', 'hello world', 'a b', 'zz', 'foo', 'x\\ny', 'tab\\t!', 'q\\"q', 'back\\\\s', 'aB9 _-z', '12', '-7', '3.5', '1/2', '1e3', 'ff', '()',
        '(a b)', 'aa', 'aaa', 'aab', ' ', '  x', '0', '+5', '10101', 'zzz', '99999999999999999999', '.5', '5.', '1e', '-', '1/0', '4/6', 'a\\rb', '!~', "'x"]
PRED = 'boolean? char? null? number? integer? pair? list? procedure? rational? real? string? symbol? vector? complex? exact? inexact? not'.split()
KEYS = ['0', '1', '2', '1.0', '1/2', "'a", "'b", '#t', '#f', '#\\a', '#\\b', '"a"', '"ab"', "'()", "'(1)", "'(a b)", "'#(1)", '-1', '100', '9007199254740993', "'foo", '0.5']

# type letters: i integer, k index, n number, f float, c char, s string, y symbol, l list, a alist, p pair chain, v vector, h hash table,
# I input port, O output port, b boolean, x anything, K key, 1 procedure of one argument, 2 of two, t thunk, r radix
# name: ([argument types; '*' after a letter = any number, '?' = optional], result type)
NUM = {
    '+': ('n*', 'n'), '-': ('nn*', 'n'), '*': ('n*', 'n'), '/': ('nn*', 'n'), 'quotient': ('ii', 'i'), 'remainder': ('ii', 'i'), 'modulo': ('ii', 'i'),
    'gcd': ('i*', 'i'), 'lcm': ('i*', 'i'), 'abs': ('n', 'n'), 'max': ('nn*', 'n'), 'min': ('nn*', 'n'), 'expt': ('nk', 'n'), '=': ('nn*', 'b'),
    '<': ('nn*', 'b'), '>': ('nn*', 'b'), '<=': ('nn*', 'b'), '>=': ('nn*', 'b'), 'zero?': ('n', 'b'), 'positive?': ('n', 'b'),
    'negative?': ('n', 'b'), 'odd?': ('i', 'b'), 'even?': ('i', 'b'), 'exact?': ('n', 'b'), 'inexact?': ('n', 'b'), 'integer?': ('n', 'b'),
    'rational?': ('n', 'b'), 'real?': ('n', 'b'), 'number?': ('x', 'b'), 'complex?': ('n', 'b')}
NSTR = {'number->string': ('nr?', 's'), 'string->number': ('Sr?', 'n'), 'sqrt': ('n', 'n')}
EQ = {'eq?': ('xx', 'b'), 'eqv?': ('xx', 'b'), 'equal?': ('xx', 'b')}
LIST = {
    'cons': ('xx', 'p'), 'car': ('p', 'x'), 'cdr': ('p', 'x'), 'cadr': ('p', 'x'), 'cddr': ('p', 'x'), 'caddr': ('p', 'x'), 'list': ('x*', 'l'),
    'append': ('l*', 'l'), 'length': ('l', 'i'), 'reverse': ('l', 'l'), 'list-ref': ('lk', 'x'), 'list-tail': ('lk', 'l'), 'list-head': ('lk', 'l'),
    'last-pair': ('p', 'p'), 'set-car!': ('px', '!'), 'set-cdr!': ('px', '!'), 'memq': ('Kl', 'l'), 'memv': ('Kl', 'l'), 'member': ('Kl', 'l'),
    'list?': ('p', 'b'), 'pair?': ('x', 'b'), 'null?': ('x', 'b'), 'map': ('1l', 'l'), 'apply': ('Ll', 'x'), 'for-each': ('1l', '!')}
ALIST = {
    'assq': ('Ka', 'p'), 'assv': ('Ka', 'p'), 'assoc': ('Ka', 'p'), 'assoc-ref': ('aK', 'x'), 'assq-set!': ('aKx', 'a'),
    'assoc-set!': ('aKx', 'a'), 'assoc-remove!': ('aK', 'a'), 'acons': ('Kxa', 'a')}
VEC = {'vector': ('x*', 'v'), 'make-vector': ('kx', 'v'), 'vector-length': ('v', 'i'), 'vector-ref': ('vk', 'x'), 'vector-set!': ('vkx', '!'),
       'vector->list': ('v', 'l'), 'list->vector': ('l', 'v'), 'vector?': ('x', 'b')}
STR = {'string-length': ('s', 'i'), 'string-ref': ('sk', 'c'), 'string-set!': ('skc', '!'), 'substring': ('skk', 's'), 'string-append': ('s*', 's'),
       'string': ('c*', 's'), 'make-string': ('kc', 's'), 'string->list': ('s', 'l'), 'list->string': ('C', 's'), 'string->symbol': ('s', 'y'),
       'symbol->string': ('y', 's'), 'string?': ('x', 'b')}
SCMP = {f'string{ci}{op}?': ('ss', 'b') for ci in ('', '-ci') for op in ('=', '<', '>', '<=', '>=')}
CCMP = {f'char{ci}{op}?': ('cc', 'b') for ci in ('', '-ci') for op in ('=', '<', '>', '<=', '>=')}
CHAR = {'char->integer': ('c', 'i'), 'integer->char': ('k', 'c'), 'char-upcase': ('c', 'c'), 'char-downcase': ('c', 'c'), 'char-alphabetic?': ('c', 'b'),
        'char-numeric?': ('c', 'b'), 'char-whitespace?': ('c', 'b'), 'char-upper-case?': ('c', 'b'), 'char-lower-case?': ('c', 'b')}
SYM = {'symbol->string': ('y', 's'), 'string->symbol': ('s', 'y'), 'symbol?': ('x', 'b')}
HASH = {}
for _p in ('hash', 'hashq', 'hashv'):
    HASH.update({_p + '-set!': ('hKx', 'x'), _p + '-ref': ('hK', 'x'), _p + '-get-handle': ('hK', 'p'), _p + '-create-handle!': ('hKx', 'p'),
                 _p + '-remove!': ('hK', '!')})
HASH['make-hash-table'] = ('k?', 'h')
PREDS = {p: ('x', 'b') for p in PRED}
PORT = {'open-input-string': ('s', 'I'), 'get-output-string': ('O', 's'), 'read-char': ('I', 'c'), 'peek-char': ('I', 'c'), 'char-ready?': ('I', 'b'),
        'read': ('I', 'x'), 'display': ('DW', '!'), 'write': ('DW', '!'), 'newline': ('W', '!'), 'write-char': ('cW', '!'), 'eof-object?': ('e', 'b'),
        'open-output-file': ('Q', 'U'), 'open-input-file': ('F', 'I'), 'close-output-port': ('U', '!'), 'close-input-port': ('I', '!'),
        'call-with-output-string': ('3', 's'), 'call-with-input-string': ('s4', 'x'), 'call-with-output-file': ('Q3', 'x'), 'call-with-input-file': ('F4', 'x'),
        'input-port?': ('P', 'b'), 'output-port?': ('P', 'b'), 'force-output': ('W', '!')}
SOFTOUT = ['(lambda (c) (set! log (cons c log)))', '(lambda (c) (set! log (append log (list c))))', '#f', '(lambda (c) (display c sink))', '(lambda () 1)']
SOFTIN = ['(lambda () (if (null? log) #f (let ((c (car log))) (set! log (cdr log)) c)))', '(lambda () #\\q)', '#f', '(lambda () (read-char source))', '(lambda () (throw (quote soft) 1))']

AREAS = {
    'num': (NUM, NUM), 'float': ({**NUM, **NSTR}, {**NUM, **NSTR, 'string-append': ('s*', 's')}),
    'eq': ({**EQ, **EQ, 'memq': ('Kl', 'l'), 'memv': ('Kl', 'l'), 'member': ('Kl', 'l'), 'assq': ('Ka', 'p'), 'assv': ('Ka', 'p'), 'assoc': ('Ka', 'p')},
           {**EQ, **LIST, **VEC, **ALIST, **{k: STR[k] for k in ('string-append', 'substring', 'string-set!', 'string')}, '+': ('n*', 'n'), '/': ('nn', 'n'), '*': ('n*', 'n')}),
    'list': (LIST, {**LIST, 'vector': ('x*', 'v'), 'vector->list': ('v', 'l')}), 'alist': (ALIST, {**ALIST, **LIST}),
    'vec': (VEC, {**VEC, 'car': ('p', 'x'), 'set-car!': ('px', '!'), 'cons': ('xx', 'p'), 'append': ('l*', 'l'), 'eq?': ('xx', 'b'), 'equal?': ('xx', 'b')}),
    'str': ({**STR, **SCMP}, {**STR, **SCMP, 'equal?': ('xx', 'b'), 'number->string': ('nr?', 's'), 'append': ('l*', 'l'), 'reverse': ('l', 'l')}),
    'char': ({**CHAR, **CCMP, **SYM}, {**CHAR, **CCMP, **SYM, 'string-ref': ('sk', 'c'), 'string': ('c*', 's'), 'string-append': ('s*', 's'), 'eq?': ('yy', 'b'), 'string->list': ('s', 'l')}),
    'hash': (HASH, {**HASH, 'set-cdr!': ('px', '!'), 'cdr': ('p', 'x'), 'car': ('p', 'x'), 'string-append': ('s*', 's'), 'list': ('x*', 'l'), '+': ('ii', 'i')}),
    'port': (PORT, {**PORT, 'string-append': ('s*', 's'), 'string-length': ('s', 'i')}),
    'pred': (PREDS, {**PREDS, **EQ}),
}
AREAS['mix'] = ({**LIST, **VEC, **STR, **HASH, **ALIST, **NUM, **EQ}, {**NUM, **LIST, **VEC, **STR, **HASH, **ALIST, **EQ, **CHAR, **PREDS, **SYM})

VARTYPES = {'num': 'nnniif', 'float': 'ffnsn', 'eq': 'xlpavsny', 'list': 'llppxl', 'alist': 'aaaplx', 'vec': 'vvvlpx', 'str': 'sssscy', 'char': 'ccsyyi',
            'hash': 'hhhKKp', 'port': 'IIIIOOUVs', 'pred': 'xlns', 'mix': 'lpvshani'}


class Gen:
    def __init__(self, r, area, hostile=0.06, forms=None):
        self.r, self.area, self.hostile = r, area, hostile
        self.main, self.all = AREAS[area]
        self.main_names = list(self.main)
        self.by = {}
        for n, (a, t) in self.all.items():
            self.by.setdefault(t, []).append(n)
        self.vars = []
        self.forms = forms

    # ---- literals
    def int(self):
        r = self.r
        k = r.random()
        if k < .45:
            return r.randint(-12, 40)
        if k < .75:
            return r.choice(INTS)
        if k < .85:
            return r.choice(INTS[-16:]) + r.randint(-3, 3) if r.random() < .5 else r.randint(-10 ** 9, 10 ** 9)
        return r.randint(-2 ** r.randint(1, 63), 2 ** r.randint(1, 63))

    def flo(self):
        r = self.r
        k = r.random()
        if k < .6:
            return r.choice(FLOATS)
        if k < .8:
            return repr(r.randint(-4000, 4000) / r.choice([2, 4, 8, 10, 16, 100, 1024]))
        return '%se%d' % (r.choice(['1.25', '-3.5', '7', '9.75', '-1.5']), r.randint(-30, 30))

    def lit(self, t, depth=0):
        r = self.r
        if t == 'i':
            return str(max(-2 ** 63, min(2 ** 63 - 1, self.int())))
        if t == 'k':
            return str(r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 65, 97]) if r.random() < .93 else r.choice([-1, -2, 100, 200, 2 ** 31, 2 ** 32, 2 ** 62, -2 ** 63]))
        if t == 'r':
            return str(r.choice([10, 10, 2, 8, 16, 16, 3, 36, 7]) if r.random() < .93 else r.choice([0, 1, 37, -1, -10, 2 ** 32 + 10]))
        if t == 'f':
            return self.flo()
        if t == 'n':
            k = r.random()
            if k < .55:
                return self.lit('i')
            if k < .75:
                n, d = self.int(), abs(self.int()) or 2
                if r.random() < .7:
                    n, d = r.randint(-30, 30), r.randint(1, 30)
                f = Fraction(n, d)
                if abs(f.numerator) < 2 ** 63 and f.denominator < 2 ** 63:
                    return f'{f.numerator}/{f.denominator}' if f.denominator > 1 else str(f.numerator)
                return '2/3'
            return self.flo()
        if t == 'c':
            return '#\\' + r.choice(CHARS)
        if t == 's':
            return '"' + r.choice(STRS) + '"' if self.area != 'port' or r.random() < .3 else self.datum_string()
        if t == 'S':
            return '"' + self.number_text() + '"'
        if t == 'y':
            return "'" + r.choice(SYMS)
        if t == 'b':
            return r.choice(['#t', '#f'])
        if t == 'K':
            return r.choice(KEYS)
        if t == 'h':
            return '(make-hash-table)' if r.random() < .6 else f'(make-hash-table {r.choice([0, 1, 2, 3, 7, 31])})'
        if t == 'I':
            return f'(open-input-string {self.lit("s")})'
        if t == 'O':
            return '(open-output-string)'
        if t == 'D':
            v = self.var('s')
            return v if v and r.random() < .3 else self.lit(r.choice('inncssyybKKlpvD'), 3) if r.random() < .9 else self.call(r.choice(['read', 'read-char', 'get-output-string']), 2)
        if t == 'F':
            return r.choice(['"f1"', '"f1"', '"f2"', '"f2"', '"f2"', '"o1"', '"no-such-dir/f"', '"none"'])
        if t == 'Q':
            self.nfile = getattr(self, 'nfile', 0) + 1
            return f'"o{self.nfile if r.random() < .9 else r.randint(1, 9)}"' if r.random() < .97 else r.choice(['"f1"', '"no-such-dir/f"'])
        if t == 'U':
            return f'(open-output-file {self.lit("Q")})'
        if t == 'V':
            return f"(make-soft-port (vector {r.choice(SOFTOUT)} #f {r.choice(['#f', '(lambda () (set! log (cons 99 log)))'])} {r.choice(SOFTIN)} {r.choice(['#f', '(lambda () (set! log (list 1 log)))'])}) {r.choice(['%cw%c' % (34, 34), '%cr%c' % (34, 34), '%crw%c' % (34, 34)])})"
        if t in 'WP':
            k = r.random()
            return self.expr('O' if k < .5 else 'U' if k < .7 else 'V' if k < .85 else 'I' if t == 'P' else 'O') if t == 'P' or k < .97 else r.choice(["'()", '1'])
        if t == 'e':
            return f"({r.choice(['read-char', 'peek-char', 'read'])} {self.expr('I')})" if r.random() < .8 else self.expr('x')
        if t == '3':
            return '(lambda (p)' + ''.join(f' ({r.choice(["display", "write"])} {self.lit("D")} p)' for _ in range(r.randint(1, 3))) + (' (newline p)' if r.random() < .3 else '') + \
                r.choice(['', '', " 'value", ' (write-char #\\z p)', ' (close-output-port p)']) + ')'
        if t == '4':
            return r.choice(['(lambda (p) (list (read p) (read-char p) 1))', 'read', 'read-char', '(lambda (p) (let loop ((n 0)) (if (eof-object? (read p)) n (loop (+ n 1)))))',
                             '(lambda (p) (let loop ((n 0)) (if (eof-object? (read-char p)) n (loop (+ n 1)))))', '(lambda (p) (read p) (peek-char p))', 'input-port?'])
        if t == '1':
            return r.choice(['(lambda (e) e)', '(lambda (e) (list e))', 'list', '(lambda (e) (cons 1 e))', 'null?', 'pair?', '(lambda (e) (if (pair? e) (car e) e))', 'car', '(lambda r r)'])
        if t == 'L':
            return r.choice(['list', '(lambda r r)', '(lambda (a . r) (cons r a))', 'append', 'cons', 'vector'])
        if t == 'C':
            return '(list' + ''.join(' ' + self.lit('c') for _ in range(r.randint(0, 4))) + ')'
        if t == 'l':
            if depth > 2:
                return "'()"
            k = r.random()
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
            if k < .5:
                return "'(" + ' '.join(self.datum(depth + 1) for _ in range(n)) + ')'
            return '(list' + ''.join(' ' + self.expr('x', depth + 1) for _ in range(n)) + ')'
        if t == 'p':
            if depth > 2:
                return "'(a . b)"
            k = r.random()
            if k < .4:
                return self.lit('l', depth)
            if k < .7:
                return "'(" + ' '.join(self.datum(depth + 1) for _ in range(r.randint(1, 3))) + ' . ' + self.datum(depth + 1) + ')'
            return f'(cons {self.expr("x", depth + 1)} {self.expr("x", depth + 1)})'
        if t == 'a':
            n = r.choice([0, 1, 2, 3, 4])
            if r.random() < .7:
                return '(list' + ''.join(f' (cons {r.choice(KEYS)} {self.lit("x", 3)})' for _ in range(n)) + ')'
            return "'(" + ' '.join(f'({self.unq(r.choice(KEYS))} . {self.datum(2)})' for _ in range(n)) + ')'
        if t == 'v':
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 6])
            if depth > 2:
                return '(vector)'
            if r.random() < .4:
                return "'#(" + ' '.join(self.datum(depth + 1) for _ in range(n)) + ')'
            return '(vector' + ''.join(' ' + self.expr('x', depth + 1) for _ in range(n)) + ')'
        if t == 'x':
            return self.lit(r.choice('iinfcssyblvpKK' if depth < 2 else 'iinfcsybK'), depth + 1)
        return "'()"

    def unq(self, k):
        return k[1:] if k[0] == "'" else k

    def datum(self, depth=0):
        r = self.r
        k = r.random()
        if depth < 3 and k < .2:
            return '(' + ' '.join(self.datum(depth + 1) for _ in range(r.randint(0, 3))) + ')'
        if depth < 3 and k < .25:
            return '(' + self.datum(depth + 1) + ' . ' + self.datum(depth + 1) + ')'
        if depth < 3 and k < .3:
            return '#(' + ' '.join(self.datum(depth + 1) for _ in range(r.randint(0, 3))) + ')'
        if k < .6:
            return self.unq(r.choice(KEYS))
        return self.unq(self.lit(r.choice('iincssyb')))

    def datum_string(self):
        s = ' '.join(self.datum() for _ in range(self.r.randint(0, 3)))
        return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

    def number_text(self):
        r = self.r
        k = r.random()
        if k < .25:
            return self.lit('n')
        if k < .4:
            return r.choice(STRS[16:])
        if k < .7:
            base = r.choice([2, 8, 10, 16, 16, 36])
            n = abs(self.int())
            d = ''
            while n:
                d = '0123456789abcdefghijklmnopqrstuvwxyz'[n % base] + d
                n //= base
            d = d or '0'
            if r.random() < .3:
                d = d.upper()
            if r.random() < .15:
                d += '/' + r.choice(['1', '10', '3', '0', '7'])
            return r.choice(['', '', '-', '+']) + d
        return ''.join(r.choice('0123456789.eE+-/ afz') for _ in range(r.randint(0, 5)))

    # ---- expressions
    def var(self, t):
        ok = [n for n, vt in self.vars if vt == t or t == 'x' or (t == 'n' and vt in 'if') or (t == 'p' and vt in 'la') or (t == 'l' and vt == 'a')]
        return self.r.choice(ok) if ok else None

    def expr(self, t, depth=0):
        r = self.r
        if r.random() < self.hostile:
            t = r.choice('inscylvpxhb1')
        if t == 'S':
            return self.lit('S')
        k = r.random()
        if k < .4:
            v = self.var(t)
            if v:
                return v
        if k < .62 and depth < 3:
            names = self.by.get(t if t != 'x' or r.random() < .5 else r.choice('nlpvs'))
            if names:
                return self.call(r.choice(names), depth + 1)
        return self.lit(t, depth)

    def args(self, spec, depth):
        r = self.r
        out = []
        i = 0
        while i < len(spec):
            t = spec[i]
            i += 1
            if i < len(spec) and spec[i] in '*?':
                n = r.choice([0, 1, 1, 2, 2, 3, 4]) if spec[i] == '*' else r.randint(0, 1)
                i += 1
            else:
                n = 1
            for _ in range(n):
                out.append(self.expr(t, depth))
        k = r.random()
        if k < self.hostile / 3 and out:
            out.pop()
        elif k < self.hostile / 2:
            out.append(self.expr('x', depth))
        return out

    def call(self, name, depth=0):
        a = self.args(self.all.get(name, self.main.get(name))[0], depth)
        if self.r.random() < .05 and name not in ('apply', 'map', 'for-each'):
            return f'(apply {name} (list{"".join(" " + x for x in a)}))'
        return f'({name}{"".join(" " + x for x in a)})'

    def form(self):
        r = self.r
        n = r.choice(self.main_names)
        c = self.call(n)
        k = r.random()
        rt = self.main[n][1]
        if k < .2 and rt != '!':
            v = [x for x, t in self.vars if t == rt or (rt in 'la' and t in 'pl') or (rt == 'i' and t == 'n') or rt == 'x' and t == 'x']
            if v:
                return f'(set! {r.choice(v)} {c})'
        if rt == '!':
            return c if k < .6 else f"(catch #t (lambda () {c} 'done) (lambda (k . r) (list 'caught {self.lit('K')})))"
        if k < .26:
            return f"(catch #t (lambda () {c}) (lambda (k . r) (list 'caught {self.lit('K')})))"
        if k < .31:
            v = self.var('x')
            return f'(let ((w {c})) (list w (equal? w {v}) (eq? w {v})))'
        if k < .35:
            return f'(let ((w {self.expr("x")})) {self.call(n).replace(" " + (self.var("x") or "@"), " w", 1)})'
        if k < .38:
            return f'(map (lambda (w) {c}) (list 1 2))'
        return c

    def program(self):
        r = self.r
        out = []
        types = VARTYPES[self.area]
        nv = r.randint(3, 6)
        if self.area == 'port':
            nv += 1
            out = ["(define log (list #\\a #\\b))", '(define sink (open-output-string))', f'(define source (open-input-string {self.lit("s")}))']
            for f in ('f1', 'f2'):
                out.append(f'(call-with-output-file "{f}" (lambda (p) (display {self.lit("s")} p)))')
        if 'hash-set!' in self.main:
            # one kind of equivalence per program: mixing them on one table is unspecified
            drop = r.choice([('hashq-', 'hashv-'), ('hash-', 'hashv-'), ('hash-', 'hashq-')])
            ok = lambda n: not n.startswith(drop)
            self.main_names = [n for n in self.main_names if ok(n)]
            self.by = {t: [n for n in l if ok(n)] for t, l in self.by.items()}
            self.hp = [p for p in ('hash-', 'hashq-', 'hashv-') if p not in drop][0]
        for i in range(nv):
            t = r.choice(types)
            if self.vars and r.random() < .15 and t in 'lpavsh':
                e = self.expr(t)            # may share structure with, or be, another variable
            else:
                e = self.lit(t)
            out.append(f'(define v{i} {e})')
            self.vars.append((f'v{i}', t))
        for _ in range(self.forms or r.randint(5, 14)):
            out.append(self.form())
        for n, t in self.vars:
            if t == 'h':
                ks = [r.choice(KEYS) for _ in range(4)]
                out.append('(list' + ''.join(f' ({self.hp}ref {n} {k})' for k in ks) + ')')
            elif t == 'O':
                out.append(f'(get-output-string {n})')
            elif t == 'I':
                out += [f'(read-char {n})', f'(read {n})', f'(peek-char {n})', f'(eof-object? (peek-char {n}))', f'(close-input-port {n})']
            elif t == 'U':
                out.append(f'(close-output-port {n})')
            else:
                out.append(n)
        if self.area == 'port':
            out += ['(get-output-string sink)', 'log', '(read-char source)']
            for f in ('f1', 'f2'):
                out.append(f'(call-with-input-file "{f}" (lambda (p) (let loop ((l (quote ()))) (let ((c (read-char p))) (if (eof-object? c) (reverse l) (loop (cons c l)))))))')
        pv = [n for n, t in self.vars if t in 'lpavx']
        if len(pv) > 1:
            a, b = r.sample(pv, 2)
            out.append(f'(list (eq? {a} {b}) (equal? {a} {b}))')
        return out


def program(r, area=None, **k):
    return Gen(r, area or r.choice(list(AREAS)), **k).program()
