"""An independent reference interpreter for the subset of Scheme the checks use
as an oracle.  Written from R5RS / the Guile 1.8 manual, not from pscm's code:
CPS with a trampoline, so continuations are first class by construction.

Anything whose meaning is left open (overflow past the fixnum range, results
that depend on identity of literals, ...) raises OutOfDomain, and the case is
dropped by the generator."""
from fractions import Fraction
import math, re


class OutOfDomain(Exception):
    pass


class SchemeError(Exception):
    def __init__(self, key, args=None, builtin=True):
        self.key = key            # Sym
        self.args_ = args         # scheme list
        self.builtin = builtin    # raised by a primitive: message unspecified


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Sym:
    __slots__ = ('name',)
    table = {}

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def S(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym.table[name] = Sym(name)
    return s


class Singleton:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NIL = Singleton('()')
NONE = Singleton('none')
EOF = Singleton('#<eof>')
UNBOUND = Singleton('#<unbound>')


class Pair:
    __slots__ = ('car', 'cdr')

    def __init__(self, a, d):
        self.car = a
        self.cdr = d


class Handle(Pair):
    """An entry of a hash table."""
    __slots__ = ()


class Char:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c            # a one-char str (latin-1)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s            # python str (latin-1), replaced on mutation


class Vec:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Closure:
    __slots__ = ('params', 'rest', 'body', 'env', 'name')

    def __init__(self, params, rest, body, env, name=None):
        self.params, self.rest, self.body, self.env, self.name = params, rest, body, env, name


class Prim:
    __slots__ = ('name', 'fn', 'lo', 'hi', 'ctl')

    def __init__(self, name, fn, lo, hi, ctl=False):
        self.name, self.fn, self.lo, self.hi, self.ctl = name, fn, lo, hi, ctl


class Cont:
    __slots__ = ('k', 'winds', 'handlers', 'module')

    def __init__(self, k, winds, handlers, module=None):
        self.k, self.winds, self.handlers, self.module = k, winds, handlers, module


class Foreign:
    """An object of the host's (lib/capi.py)."""


class Values:
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = vs


class Promise:
    __slots__ = ('expr', 'env', 'done', 'value')

    def __init__(self, expr, env):
        self.expr, self.env, self.done, self.value = expr, env, False, None


def quiet(x):
    """An operand whose evaluation nobody can see."""
    if not isinstance(x, Pair):
        return True
    return isinstance(x.car, Sym) and x.car.name in ('quote', 'lambda', 'list', 'cons') and (x.car.name in ('quote', 'lambda') or (isinstance(x.cdr, Pair) or x.cdr is NIL) and all(quiet(o) for o in to_list(x.cdr)))


class Macro:
    __slots__ = ('proc',)

    def __init__(self, proc):
        self.proc = proc


class Hash:
    __slots__ = ('d',)

    def __init__(self):
        self.d = []           # list of Pair handles, insertion order


class Port:
    __slots__ = ('kind', 'data', 'pos', 'buf', 'closed', 'broken', 'modes', 'name')

    def __init__(self, kind, data=''):
        self.kind, self.data, self.pos, self.buf, self.closed, self.broken = kind, data, 0, [], False, False
        self.modes, self.name = '', None

    def can_read(self):
        return 'r' in self.modes if self.kind == 'soft' else self.kind[0] == 'i'

    def can_write(self):
        return 'w' in self.modes if self.kind == 'soft' else self.kind[0] == 'o'


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, d, up):
        self.d, self.up = d, up


LONG = 20000


def to_list(x):
    r = []
    while isinstance(x, Pair):
        r.append(x.car)
        x = x.cdr
        if len(r) > LONG:
            raise OutOfDomain('circular')
    if x is not NIL:
        raise err('wrong-type-arg')
    return r


def size(n):
    need(is_int(n) and n >= 0)
    if n > 1 << 44:
        raise err(ERROR)
    if n > LONG:
        raise OutOfDomain('big object')
    return n


def lax_list(x):
    """A list argument of the procedures that accept improper lists, which nothing specifies."""
    need(x is NIL or isinstance(x, Pair))
    try:
        return to_list(x)
    except SchemeError:
        raise OutOfDomain('improper list argument')


def from_list(xs, tail=NIL):
    for x in reversed(xs):
        tail = Pair(x, tail)
    return tail


def err(key, *a):
    return SchemeError(S(key), from_list(list(a)))


ERROR = 'error'


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def is_proc(x):
    return isinstance(x, (Closure, Prim, Cont))


I64 = 1 << 63


def num(x):
    """Normalises an exact result, and drops what does not fit."""
    if isinstance(x, Fraction):
        if x.denominator == 1:
            x = int(x)
        else:
            if not -I64 <= x.numerator < I64 or x.denominator >= I64:
                raise err(ERROR)
            return x
    if isinstance(x, int) and not -I64 <= x < I64:
        raise err(ERROR)
    return x


def flo(x):
    """The double the interpreter uses for a number in mixed arithmetic."""
    return float(x.numerator) / float(x.denominator) if isinstance(x, Fraction) else float(x)


def fold(f, xs, r):
    """Left to right; an intermediate result out of range where the final one is not: left open."""
    bad = False
    for x in xs:
        if isinstance(x, float) or isinstance(r, float):
            r, x = flo(r), flo(x)
            if bad:
                raise OutOfDomain('overflow before a float')
        r = f(r, x)
        if not isinstance(r, float):
            if isinstance(r, Fraction) and r.denominator == 1:
                r = int(r)
            try:
                num(r)
            except SchemeError:
                bad = True
    v = num(r)
    if bad:
        raise OutOfDomain('intermediate overflow')
    return v


# ---------------------------------------------------------------- reader
class ReadError(Exception):
    pass


DELIM = set(' \t\n\r\f\v();"\'`,')


def read_all(text):
    pos = 0
    out = []
    while True:
        pos = skip_ws(text, pos)
        if pos >= len(text):
            return out
        v, pos = read_at(text, pos)
        out.append(v)


def read_one(text):
    v = read_all(text)
    if len(v) != 1:
        raise ReadError('not one datum')
    return v[0]


def skip_ws(t, i):
    n = len(t)
    while i < n:
        if t[i] in ' \t\n\r\f\v':
            i += 1
        elif t[i] == ';':
            while i < n and t[i] != '\n':
                i += 1
        else:
            break
    return i


CHARNAMES = {'space': ' ', 'newline': '\n', 'tab': '\t', 'ht': '\t', 'nul': '\0'}


def read_at(t, i):
    i = skip_ws(t, i)
    if i >= len(t):
        raise ReadError('eof')
    c = t[i]
    if c == '(':
        return read_tail(t, i + 1)
    if c == ')':
        raise ReadError('unexpected )')
    for pre, name in ((',@', 'unquote-splicing'), ("'", 'quote'), ('`', 'quasiquote'), (',', 'unquote')):
        if t.startswith(pre, i):
            j = skip_ws(t, i + 1)
            if pre == ',' and j > i + 1 and t.startswith('@', j):
                raise OutOfDomain('a comma, white space, @')
            v, i = read_at(t, i + len(pre))
            return from_list([S(name), v]), i
    if c == '"':
        out = []
        i += 1
        while True:
            if i >= len(t):
                raise ReadError('string')
            if t[i] == '"':
                return Str(''.join(out)), i + 1
            if t[i] == '\\':
                i += 1
                if i >= len(t):
                    raise ReadError('string')
                if re.match('[0-3][0-7][0-7]', t[i:i + 3]):
                    out.append(chr(int(t[i:i + 3], 8)))
                    i += 2
                else:
                    out.append({'n': '\n', 't': '\t', 'r': '\r'}.get(t[i], t[i]))
            else:
                out.append(t[i])
            i += 1
    if c == '#':
        if t[i + 1:i + 2] in ('{', ':'):
            kw = re.compile(r'#:([a-z][a-z-]*)(?=[\s()])').match(t, i)
            if kw:
                return S(kw.group(1)), kw.end()
            if t[i + 1] == '{':
                j, depth = i + 2, 1
                while j < len(t):
                    depth += {'{': 1, '}': -1}.get(t[j], 0)
                    if depth == 0:
                        if t[j + 1:j + 2] != '#':
                            raise ReadError('}')
                        return S(t[i + 2:j]), j + 2
                    j += 1
                raise ReadError('#{')
            raise OutOfDomain('extended symbol syntax')
        if t.startswith('#(', i):
            v, i = read_tail(t, i + 2, False)
            return Vec(to_list(v)), i
        if t.startswith('#\\', i):
            j = i + 2
            if j >= len(t):
                raise ReadError('char')
            if t[j].isalpha():
                k = j
                while k < len(t) and t[k].isalpha():
                    k += 1
                nm = t[j:k].lower()
                if nm in CHARNAMES and k - j > 1:
                    return Char(CHARNAMES[nm]), k
                if k - j == 1:
                    return Char(t[j]), k
                raise OutOfDomain('char name')
            return Char(t[j]), j + 1
        for lit, v in (('#t', True), ('#f', False)):
            if t.startswith(lit, i) and (i + 2 >= len(t) or t[i + 2] in DELIM):
                return v, i + 2
            if t.startswith(lit, i) and not (t[i + 2].isalnum() or t[i + 2] in SYMCHARS):
                raise OutOfDomain('what follows a boolean')
        raise ReadError('#')
    j = i
    while j < len(t) and t[j] not in DELIM:
        j += 1
    return atom(t[i:j]), j


INT = re.compile(r'[+-]?[0-9]+$')
DEC = re.compile(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$')
SYMCHARS = set("!$%&*+-./:<=>?@^_~|\\")


def number_token(s, radix=10):
    """The number s spells; None if it spells none or one that is out of range (then 'range')."""
    b = s[1:] if s[:1] in ('+', '-') else s
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:radix]

    def digits(t):
        return t != '' and all(c in digs for c in t.lower())
    if digits(b):
        v = int(b, radix) * (-1 if s[0] == '-' else 1)
        return v if -I64 <= v < I64 else 'range'
    n, slash, d = b.partition('/')
    if slash and digits(n) and digits(d):
        n, d = int(n, radix) * (-1 if s[0] == '-' else 1), int(d, radix)
        if d == 0 or not -I64 <= n < I64 or d >= I64:
            return 'range'
        f = Fraction(n, d)
        return int(f) if f.denominator == 1 else f
    if radix == 10 and DEC.match(s):
        v = float(s)
        return 'range' if v in (math.inf, -math.inf) else v
    return None


def atom(s):
    if s == '.':
        raise ReadError('dot')
    b = s[1:] if s[0] in '+-' else s
    if b and b[0].isdigit():
        v = number_token(s)
        if v == 'range':
            raise ReadError('number out of range')
        if v is not None:
            return v
    for c in s:
        if not (c.isalnum() and ord(c) < 128 or c in SYMCHARS):
            raise OutOfDomain('symbol characters')
    if '\\' in s or s[0] == ':':
        raise OutOfDomain('odd symbol')
    return S(s)


def read_tail(t, i, dots=True):
    items = []
    while True:
        i = skip_ws(t, i)
        if i >= len(t):
            raise ReadError('eof in list')
        if t[i] == ')':
            return from_list(items), i + 1
        if t[i] == '.' and (i + 1 >= len(t) or t[i + 1] in DELIM) and items and dots:
            v, i = read_at(t, i + 1)
            i = skip_ws(t, i)
            if i >= len(t) or t[i] != ')':
                raise ReadError('dot')
            return from_list(items, v), i + 1
        v, i = read_at(t, i)
        items.append(v)


# ---------------------------------------------------------------- printer
def fmt_float(v):
    if v != v:
        raise OutOfDomain('nan')
    if v in (math.inf, -math.inf):
        return 'inf' if v > 0 else '-inf'
    if v == int(v) and -2.0 ** 63 <= v < 2.0 ** 63:
        return '%.1f' % v
    return '%.14g' % v


OPAQUE = [False]         # whether show came across an object whose printed form is not specified


def show(x, write=True, out=None, depth=0, ctx=(False, False)):
    if out is None:
        out = [0]
    if depth > 400 or out[0] > LONG:
        raise OutOfDomain('too deep / circular')
    out[0] += 1
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return fmt_float(x)
    if isinstance(x, Fraction):
        return f'{x.numerator}/{x.denominator}'
    if isinstance(x, Char):
        if not write:
            return x.c
        return '#\\' + {' ': 'space', '\n': 'newline', '\t': 'ht', '\0': 'nul'}.get(x.c, x.c)
    if isinstance(x, Str):
        if not write:
            return x.s
        r = []
        for ch in x.s:
            if ch in '\\"':
                r.append('\\' + ch)
            elif ch in '\n\t\r':
                r.append({'\n': '\\n', '\t': '\\t', '\r': '\\r'}[ch])
            elif 32 <= ord(ch) < 127:
                r.append(ch)
            else:
                r.append('\\%03o' % ord(ch))
        return '"' + ''.join(r) + '"'
    if isinstance(x, Sym):
        if x.name[:1] == ':':
            return '#' + x.name
        if x.name[:1] == '\x01':
            raise OutOfDomain('the name of a made-up symbol')
        return x.name
    if x is NIL:
        return '()'
    if isinstance(x, Pair):
        h = x.car
        if isinstance(h, Sym) and isinstance(x.cdr, Pair) and x.cdr.cdr is NIL:
            if h.name == 'quasiquote':
                ctx = (True, ctx[1])
            elif h.name == 'unquote':
                ctx = (ctx[0], True)
            elif h.name == 'quote' and ctx == (True, False):
                return "'" + show(x.cdr.car, True, out, depth + 1, ctx)
        r = []
        n = 0
        while isinstance(x, Pair):
            r.append(show(x.car, True, out, depth + 1, ctx))
            x = x.cdr
            n += 1
        if x is not NIL:
            r.append('.')
            r.append(show(x, True, out, depth + 1, ctx))
        return '(' + ' '.join(r) + ')'
    if isinstance(x, Vec):
        return '#(' + ' '.join(show(e, write, out, depth + 1, ctx) for e in x.v) + ')'
    if x is NONE or x is EOF:
        return 'none'
    OPAQUE[0] = True
    if isinstance(x, (Closure, Prim)):
        return '#<procedure>'
    if isinstance(x, Cont):
        return '#<continuation>'
    if isinstance(x, Hash):
        return '#<hash-table>'
    if isinstance(x, Promise):
        return '#<promise>'
    if isinstance(x, Port):
        return '#<port>'
    if isinstance(x, Foreign):
        return x.show()
    raise OutOfDomain('printing ' + repr(x))


# ---------------------------------------------------------------- equality
def eqv(a, b):
    if a is b:
        return True
    if is_num(a) and is_num(b):
        return num_eq(a, b)
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s          # documented: eq? and eqv? compare the contents of strings
    return False


def eqs(a, b):
    """As eq?, except that strings are told apart by identity (assq, hashq-, hashv-)."""
    if isinstance(a, Str) and isinstance(b, Str):
        return a is b
    return eqv(a, b)


def num_eq(a, b):
    """An integer equals the float of the same value, a ratio only a ratio."""
    return isinstance(a, Fraction) == isinstance(b, Fraction) and ncmp(a, b) == 0


def ncmp(a, b):
    """-1, 0, 1, or 2 for NaN."""
    if (isinstance(a, float) and isinstance(b, Fraction)) or (isinstance(a, Fraction) and isinstance(b, float)):
        a, b = flo(a), flo(b)
    if a != a or b != b:
        return 2
    return -1 if a < b else 1 if a > b else 0


def equal(a, b, depth=0, n=None):
    if n is None:
        n = [0]
    n[0] += 1
    if depth > 400 or n[0] > LONG:
        raise OutOfDomain('deep equal')
    if a is b:
        return True
    if isinstance(a, Pair) and isinstance(b, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            n[0] += 1
            if n[0] > LONG:
                raise OutOfDomain('circular')
            if not equal(a.car, b.car, depth + 1, n):
                return False
            a, b = a.cdr, b.cdr
        return equal(a, b, depth + 1, n)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.v) == len(b.v) and all(equal(x, y, depth + 1, n) for x, y in zip(a.v, b.v))
    if is_num(a) and is_num(b):
        return eqv(a, b)
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    if isinstance(a, Foreign) and isinstance(b, Foreign):
        return a.equal(b)
    return False


# ---------------------------------------------------------------- machine
SPECIAL = {}


def special(name):
    def d(f):
        SPECIAL[S(name)] = f
        return f
    return d


class Machine:
    def __init__(self, max_steps=60000, max_out=20000):
        self.genv = Env({}, None)
        self.winds = None          # linked: (in, out, prev, depth)
        self.handlers = None       # linked: (tag, handler, k, winds, prev)
        self.out = []
        self.steps = 0
        self.max_steps = max_steps
        self.maxdepth = 0
        self.features = set()
        self.files = {}
        FROZEN.clear()
        self.open_files = {}
        self.current = {'in': Port('istd'), 'out': Port('ostd')}
        self.ports = []
        self.root = None           # modules (use_modules() turns them on)
        for p in PRIMS.values():
            self.genv.d[p[0]] = p[1]

    # --- top level
    def run_form(self, x):
        """Returns ('V', v) or ('X', SchemeError)."""
        self.winds = None
        self.handlers = None
        try:
            v = self.run((self.ev, x, self.genv, self.top_k))
            return ('V', v)
        except SchemeError as e:
            return ('X', e)

    def top_k(self, v):
        return ('halt', v)

    def run(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise OutOfDomain('too many steps')
            if st[0] == 'halt':
                return st[1]
            try:
                st = st[0](*st[1:])
            except SchemeError as e:
                st = self.throw(e)
            except RecursionError:
                raise OutOfDomain('python recursion')

    def throw(self, e):
        h = self.handlers
        while h is not None:
            tag, handler, k, winds, prev = h
            if tag is True or tag is e.key:
                def after(_, e=e, handler=handler, k=k, prev=prev):
                    self.handlers = prev
                    args = [e.key]
                    if isinstance(handler, Unload):
                        self.module = handler.old
                        raise e
                    if e.builtin:
                        # arguments of built-in errors are unspecified
                        args += [UNSPEC_ARG]
                    else:
                        args += to_list(e.args_)
                    return self.apply(handler, args, k)
                # guards run before the handler does, while its catch is still active
                self.handlers = h
                return self.rewind(winds, after)
            h = h[4]
        self.handlers = None

        def done(_):
            raise SchemeTop(e)
        # uncaught: the dynamic extent of the whole form is left
        return self.rewind(None, done)

    # --- dynamic-wind
    def rewind(self, target, k):
        src = self.winds
        if src is target:
            return (k, None)
        a, b = src, target
        da = a[3] if a else 0
        db = b[3] if b else 0
        while da > db:
            a = a[2]
            da -= 1
        while db > da:
            b = b[2]
            db -= 1
        while a is not b:
            a = a[2] if a else None
            b = b[2] if b else None
        common = a
        outs = []
        w = src
        while w is not common:
            outs.append(w)
            w = w[2]
        ins = []
        w = target
        while w is not common:
            ins.append(w)
            w = w[2]
        ins.reverse()

        def step_out(i):
            if i == len(outs):
                return (step_in, 0)
            w = outs[i]
            self.winds = w[2]
            return self.apply(w[1], [], lambda _, i=i: (step_out, i + 1))

        def step_in(i):
            if i == len(ins):
                self.winds = target
                return (k, None)
            w = ins[i]
            self.winds = w[2]

            def next_(_, i=i, w=w):
                self.winds = w
                return (step_in, i + 1)
            return self.apply(w[0], [], next_)
        return (step_out, 0)

    # --- eval
    def lookup(self, s, env):
        e = env
        while e is not None:
            v = e.d.get(s)
            if v is not None:
                if v is UNBOUND:
                    raise OutOfDomain('letrec use before init')
                return v
            e = e.up
        raise err('error')

    def ev(self, x, env, k):
        if isinstance(x, Sym):
            return (k, self.lookup(x, env))
        if not isinstance(x, Pair):
            if x is NIL:
                raise OutOfDomain('evaluating ()')
            return (k, x)
        h = x.car
        if isinstance(h, Sym):
            v = None
            e = env
            while e is not None:
                v = e.d.get(h)
                if v is not None:
                    break
                e = e.up
            if v is None or e is self.genv:
                f = SPECIAL.get(h)
                if f is not None:
                    return f(self, x, env, k)
            elif h in SPECIAL:
                raise OutOfDomain('shadowed special form')
            if isinstance(v, Macro):
                return self.apply(v.proc, to_list(x.cdr), lambda e2: (self.ev, e2, env, k))
        if not isinstance(h, (Sym, Pair)) and x.cdr is NIL:
            raise OutOfDomain('a constant in parentheses')
        return (self.ev, h, env, lambda f: self.ev_call(f, x.cdr, env, k))

    def ev_call(self, f, rest, env, k):
        if isinstance(f, (Closure, Prim)) and rest is not NIL:
            ops = to_list(rest)
            lo, hi = (len(f.params), None if f.rest is not None else len(f.params)) if isinstance(f, Closure) else (f.lo, f.hi)
            if (len(ops) < lo or (hi is not None and len(ops) > hi)) and not all(quiet(o) for o in ops):
                raise OutOfDomain('whether the operands run before a call with the wrong number of arguments fails')
        return self.ev_args(f, rest, env, (), k)

    def ev_args(self, f, rest, env, acc, k):
        if rest is NIL:
            return self.apply(f, list(acc), k)
        if isinstance(f, Macro):
            raise OutOfDomain('macro value')
        return (self.ev, rest.car, env, lambda v: self.ev_args(f, rest.cdr, env, acc + (v,), k))

    def apply(self, f, args, k):
        for a in args:
            if isinstance(a, Values):
                raise OutOfDomain('multiple values as an argument')
        if isinstance(f, Closure):
            n = len(f.params)
            if len(args) < n or (f.rest is None and len(args) > n):
                raise err('wrong-number-of-args')
            d = dict(zip(f.params, args))
            if f.rest is not None:
                d[f.rest] = from_list(args[n:])
            return self.body(f.body, Env(d, f.env), k)
        if isinstance(f, Prim):
            if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                raise err('wrong-number-of-args')
            if UNSPEC_ARG in args:
                raise OutOfDomain('uses builtin error arguments')
            if len(args) > MAXARGS.get(f.name, 1 << 30):
                raise OutOfDomain('more arguments than a built-in looks at')
            if f.ctl:
                return f.fn(self, args, k)
            return (k, f.fn(self, *args))
        if isinstance(f, Cont):
            if len(args) != 1:
                raise OutOfDomain('continuation with multiple values')
            v = args[0]

            def go(_):
                self.handlers = f.handlers
                if f.module:
                    self.module = f.module
                return (f.k, v)
            return self.rewind(f.winds, go)
        if not args and (f is NIL or isinstance(f, (bool, int, float, Fraction, Str, Char))):
            raise OutOfDomain('a call of a datum without arguments, which is the datum')
        raise err('error')

    def body(self, xs, env, k):
        if xs is NIL:
            raise OutOfDomain('empty body')
        if xs.cdr is NIL:
            return (self.ev, xs.car, env, k)
        return (self.ev, xs.car, env, lambda _: self.body(xs.cdr, env, k))


class SchemeTop(SchemeError):
    def __init__(self, e):
        SchemeError.__init__(self, e.key, e.args_, e.builtin)


UNSPEC_ARG = Singleton('#<builtin-error-args>')


# run() must let the final SchemeTop out
def _run(self, st):
    while True:
        self.steps += 1
        if self.steps > self.max_steps:
            raise OutOfDomain('too many steps')
        if st[0] == 'halt':
            return st[1]
        try:
            st = st[0](*st[1:])
        except SchemeTop:
            raise
        except SchemeError as e:
            st = self.throw(e)
        except RecursionError:
            raise OutOfDomain('python recursion')


Machine.run = _run


def truthy(v):
    if v is NONE or isinstance(v, Values):
        raise OutOfDomain('unspecified as a test')
    return v is not False


@special('quote')
def _(m, x, env, k):
    return (k, x.cdr.car)


@special('if')
def _(m, x, env, k):
    def c(v):
        if truthy(v):
            return (m.ev, x.cdr.cdr.car, env, k)
        if x.cdr.cdr.cdr is NIL:
            return (k, NONE)
        return (m.ev, x.cdr.cdr.cdr.car, env, k)
    return (m.ev, x.cdr.car, env, c)


def bind(env, s, v):
    if isinstance(v, Values):
        raise OutOfDomain('binding multiple values')
    env.d[s] = v


@special('define')
def _(m, x, env, k):
    t = x.cdr.car
    if isinstance(t, Pair):
        name = t.car
        if not isinstance(name, Sym):
            raise OutOfDomain('definition of something that is no name')
        f = mk_lambda(t.cdr, x.cdr.cdr, env, name)
        env.d[name] = f
        return (k, NONE)
    if not isinstance(t, Sym):
        raise OutOfDomain('definition of something that is no name')

    def c(v):
        bind(env, t, v)
        if isinstance(v, Closure) and v.name is None:
            v.name = t
        return (k, NONE)
    return (m.ev, x.cdr.cdr.car, env, c)


def mk_lambda(params, body, env, name=None):
    ps = []
    while isinstance(params, Pair):
        ps.append(params.car)
        params = params.cdr
    return Closure(ps, None if params is NIL else params, body, env, name)


@special('lambda')
def _(m, x, env, k):
    return (k, mk_lambda(x.cdr.car, x.cdr.cdr, env))


@special('set!')
def _(m, x, env, k):
    s = x.cdr.car
    if not isinstance(s, Sym):
        raise OutOfDomain('assignment to something that is no name')

    def c(v):
        e = env
        while e is not None:
            if isinstance(e.d, ModDict):
                e.d.get(s)              # whether it is in the domain
            if s in e.d:
                bind(e, s, v)
                return (k, NONE)
            if isinstance(e.d, ModDict):
                o = e.d.owner(s)
                if o is not None:
                    bind(o, s, v)
                    return (k, NONE)
            e = e.up
        raise OutOfDomain('set! of an unbound variable')
    return (m.ev, x.cdr.cdr.car, env, c)


@special('begin')
def _(m, x, env, k):
    return m.body(x.cdr, env, k)


def ev_list(m, xs, env, k, acc=()):
    if not xs:
        return (k, acc)
    return (m.ev, xs[0], env, lambda v: ev_list(m, xs[1:], env, k, acc + (v,)))


@special('let')
def _(m, x, env, k):
    name = None
    r = x.cdr
    if isinstance(r.car, Sym):
        name = r.car
        r = r.cdr
    bs = [to_list(b) for b in to_list(r.car)]
    body = r.cdr

    def c(vs):
        for v in vs:
            if isinstance(v, Values):
                raise OutOfDomain('values')
        if name is None:
            return m.body(body, Env({b[0]: v for b, v in zip(bs, vs)}, env), k)
        e2 = Env({}, env)
        f = Closure([b[0] for b in bs], None, body, e2, name)
        e2.d[name] = f
        return m.apply(f, list(vs), k)
    return ev_list(m, [b[1] for b in bs], env, c)


@special('let*')
def _(m, x, env, k):
    bs = [to_list(b) for b in to_list(x.cdr.car)]

    def step(i, e):
        if i == len(bs):
            if i == 0:
                e = Env({}, e)
            return m.body(x.cdr.cdr, e, k)

        def c(v):
            if isinstance(v, Values):
                raise OutOfDomain('values')
            return step(i + 1, Env({bs[i][0]: v}, e))
        return (m.ev, bs[i][1], e, c)
    return step(0, env)


@special('letrec')
def _(m, x, env, k):
    bs = [to_list(b) for b in to_list(x.cdr.car)]
    e = Env({b[0]: UNBOUND for b in bs}, env)

    def c(vs):
        for b, v in zip(bs, vs):
            bind(e, b[0], v)
        return m.body(x.cdr.cdr, e, k)
    return ev_list(m, [b[1] for b in bs], e, c)


@special('cond')
def _(m, x, env, k):
    def step(cl):
        if cl is NIL:
            return (k, NONE)
        c = cl.car
        if c.car is S('else'):
            return m.body(c.cdr, env, k)

        def t(v):
            if not truthy(v):
                return step(cl.cdr)
            if c.cdr is NIL:
                return (k, v)
            if c.cdr.car is S('=>'):
                return (m.ev, c.cdr.cdr.car, env, lambda f: m.apply(f, [v], k))
            return m.body(c.cdr, env, k)
        return (m.ev, c.car, env, t)
    return step(x.cdr)


@special('case')
def _(m, x, env, k):
    def c(v):
        cl = x.cdr.cdr
        while cl is not NIL:
            c = cl.car
            if c.car is S('else') or any(eqv(v, d) for d in to_list(c.car)):
                return m.body(c.cdr, env, k)
            cl = cl.cdr
        return (k, NONE)
    return (m.ev, x.cdr.car, env, c)


@special('and')
def _(m, x, env, k):
    xs = x.cdr
    if xs is NIL:
        return (k, True)

    def step(xs):
        if xs.cdr is NIL:
            return (m.ev, xs.car, env, k)
        return (m.ev, xs.car, env, lambda v: step(xs.cdr) if truthy(v) else (k, v))
    return step(xs)


@special('or')
def _(m, x, env, k):
    xs = x.cdr
    if xs is NIL:
        return (k, False)

    def step(xs):
        if xs.cdr is NIL:
            return (m.ev, xs.car, env, k)
        return (m.ev, xs.car, env, lambda v: (k, v) if truthy(v) else step(xs.cdr))
    return step(xs)


@special('do')
def _(m, x, env, k):
    specs = [to_list(s) for s in to_list(x.cdr.car)]
    test = x.cdr.cdr.car
    body = x.cdr.cdr.cdr

    def loop(e):
        def t(v):
            if truthy(v):
                if test.cdr is NIL:
                    return (k, NONE)
                return m.body(test.cdr, e, k)
            if body is NIL:
                return step(None)
            return m.body(body, e, step)

        def step(_):
            return ev_list(m, [s[2] if len(s) > 2 else s[0] for s in specs], e,
                           lambda vs: loop(Env({s[0]: v for s, v in zip(specs, vs)}, env)))
        return (m.ev, test.car, e, t)
    return ev_list(m, [s[1] for s in specs], env,
                   lambda vs: loop(Env({s[0]: v for s, v in zip(specs, vs)}, env)))


@special('delay')
def _(m, x, env, k):
    return (k, Promise(x.cdr.car, env))


@special('define-macro')
def _(m, x, env, k):
    t = x.cdr.car
    if isinstance(t, Pair):
        env.d[t.car] = Macro(mk_lambda(t.cdr, x.cdr.cdr, env, t.car))
        return (k, NONE)

    def c(f):
        env.d[t] = Macro(f)
        return (k, NONE)
    return (m.ev, x.cdr.cdr.car, env, c)


@special('quasiquote')
def _(m, x, env, k):
    return qq(m, x.cdr.car, 1, env, k)


QQ, UQ, UQS = S('quasiquote'), S('unquote'), S('unquote-splicing')


def tagged(x, s):
    return isinstance(x, Pair) and x.car is s and isinstance(x.cdr, Pair) and x.cdr.cdr is NIL


def qq(m, x, depth, env, k):
    if tagged(x, UQ):
        if depth == 1:
            return (m.ev, x.cdr.car, env, k)
        return qq(m, x.cdr, depth - 1, env, lambda v: (k, Pair(UQ, v)))
    if tagged(x, QQ):
        return qq(m, x.cdr.car, depth + 1, env, lambda v: (k, from_list([QQ, v])))
    if isinstance(x, Vec):
        return qq(m, from_list(x.v), depth, env, lambda v: (k, Vec(to_list(v))))
    if not isinstance(x, Pair):
        return (k, x)
    h = x.car
    if tagged(h, UQS):
        if depth == 1:
            def c(v):
                if x.cdr is NIL:
                    return (k, v)
                return qq(m, x.cdr, depth, env, lambda r: (k, from_list(to_list(v), r)))
            return (m.ev, h.cdr.car, env, c)
        return qq(m, h.cdr, depth - 1, env,
                  lambda v: qq(m, x.cdr, depth, env, lambda r: (k, Pair(Pair(UQS, v), r))))
    return qq(m, h, depth, env, lambda a: qq(m, x.cdr, depth, env, lambda d: (k, Pair(a, d))))


# ---------------------------------------------------------------- primitives
PRIMS = {}


def prim(name, lo, hi='same', ctl=False):
    if hi == 'same':
        hi = lo

    def d(f):
        for n in name.split():
            PRIMS[n] = (S(n), Prim(n, f, lo, hi, ctl))
        return f
    return d


def need(c):
    if not c:
        raise err('error')


# control
@prim('call-with-current-continuation call/cc', 1, ctl=True)
def _(m, args, k):
    return m.apply(args[0], [Cont(k, m.winds, m.handlers, m.root and m.module)], k)


@prim('apply', 2, None, ctl=True)
def _(m, args, k):
    need(is_proc(args[0]))
    return m.apply(args[0], args[1:-1] + lax_list(args[-1]), k)


@prim('map', 2, None, ctl=True)
def _(m, args, k):
    f = args[0]
    if not is_proc(f):
        raise OutOfDomain('map of no procedure: whether the lists are still evaluated')
    ls = [lax_list(a) for a in args[1:]]
    if len(set(map(len, ls))) > 1:
        raise OutOfDomain('map over lists of different lengths')
    n = len(ls[0])

    def step(i, acc):
        if i == n:
            return (k, from_list(list(acc)))

        def c(v):
            if isinstance(v, Values):
                raise OutOfDomain('values')
            return step(i + 1, acc + (v,))
        return m.apply(f, [l[i] for l in ls], c)
    return step(0, ())


PRIMS['map-in-order'] = (S('map-in-order'), PRIMS['map'][1])


@prim('for-each', 2, None, ctl=True)
def _(m, args, k):
    f = args[0]
    if not is_proc(f):
        raise OutOfDomain('for-each of no procedure: whether the lists are still evaluated')
    ls = [lax_list(a) for a in args[1:]]
    if len(set(map(len, ls))) > 1:
        raise OutOfDomain('for-each over lists of different lengths')
    n = len(ls[0])

    def step(i):
        if i == n:
            return (k, NONE)
        return m.apply(f, [l[i] for l in ls], lambda v: step(i + 1))
    return step(0)


@prim('dynamic-wind', 3, ctl=True)
def _(m, args, k):
    a, b, c = args

    def entered(_):
        prev = m.winds
        m.winds = (a, c, prev, (prev[3] if prev else 0) + 1)

        def left(v):
            m.winds = prev
            return m.apply(c, [], lambda _: (k, v))
        return m.apply(b, [], left)
    return m.apply(a, [], entered)


@prim('catch', 3, ctl=True)
def _(m, args, k):
    tag, body, handler = args
    if tag is not True and not isinstance(tag, Sym):
        raise err('error')
    prev = m.handlers
    m.handlers = (tag, handler, k, m.winds, prev)

    def c(v):
        m.handlers = prev
        return (k, v)
    return m.apply(body, [], c)


@prim('throw', 1, None)
def _(m, key, *args):
    need(isinstance(key, Sym))
    raise SchemeError(key, from_list(list(args)), False)


@prim('values', 0, None)
def _(m, *args):
    return args[0] if len(args) == 1 else Values(list(args))


@prim('call-with-values', 2, ctl=True)
def _(m, args, k):
    return m.apply(args[0], [], lambda v: m.apply(args[1], v.vs if isinstance(v, Values) else [v], k))


@prim('force', 1, ctl=True)
def _(m, args, k):
    p = args[0]
    if not isinstance(p, Promise):
        raise err('wrong-type-arg')
    if p.done:
        return (k, p.value)

    def c(v):
        if not p.done:
            p.done, p.value = True, v
        return (k, p.value)
    return (m.ev, p.expr, p.env, c)


@prim('eval', 1, ctl=True)
def _(m, args, k):
    return (m.ev, args[0], m.genv, k)


class Variable(Foreign):
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value

    def show(self):
        raise OutOfDomain('printing a variable')

    def equal(self, other):
        return self is other


@prim('make-variable', 1)
def _(m, v):
    return Variable(v)


@prim('make-undefined-variable', 0)
def _(m):
    return Variable(UNBOUND)


@prim('variable?', 1)
def _(m, v):
    return isinstance(v, Variable)


@prim('variable-ref', 1)
def _(m, v):
    need(isinstance(v, Variable) and v.value is not UNBOUND)
    return v.value


@prim('variable-set!', 2)
def _(m, v, x):
    need(isinstance(v, Variable))
    v.value = x
    return NONE


@prim('variable-bound?', 1)
def _(m, v):
    need(isinstance(v, Variable))
    return v.value is not UNBOUND


@prim('gensym', 0)
def _(m):
    m.gensyms = getattr(m, 'gensyms', 0) + 1
    return S(f'\x01{m.gensyms}')


@prim('procedure-name', 1)
def _(m, f):
    if not isinstance(f, Closure):
        if is_proc(f):
            raise OutOfDomain('the name of a builtin')
        need(False)
    return f.name or False


@prim('defined?', 1)
def _(m, s):
    need(isinstance(s, Sym))
    if s in SPECIAL:
        raise OutOfDomain('whether a keyword is defined')
    v = m.genv.d.get(s)
    return v is not None


def expand1(m, x, k, again):
    if not isinstance(x, Pair) or not isinstance(x.car, Sym):
        return (k, x)
    v = m.genv.d.get(x.car)
    if not isinstance(v, Macro):
        return (k, x)
    if x.car in SPECIAL:
        raise OutOfDomain('a macro named like a keyword')

    def c(e):
        if again:
            if e is x:
                return (k, e)
            return expand1(m, e, k, True)
        return (k, e)
    return m.apply(v.proc, to_list(x.cdr), c)


@prim('macroexpand-1', 1, ctl=True)
def _(m, args, k):
    return expand1(m, args[0], k, False)


@prim('macroexpand', 1, ctl=True)
def _(m, args, k):
    return expand1(m, args[0], k, True)


@prim('exit', 0, 1)
def _(m, c=0):
    raise Exit(c)


@prim('gc', 0)
def _(m):
    return NONE


# predicates
def pred(name, f):
    PRIMS[name] = (S(name), Prim(name, lambda m, x: bool(f(x)), 1, 1))


pred('null?', lambda x: x is NIL)
pred('pair?', lambda x: isinstance(x, Pair))
pred('symbol?', lambda x: isinstance(x, Sym))
pred('string?', lambda x: isinstance(x, Str))
pred('char?', lambda x: isinstance(x, Char))
pred('vector?', lambda x: isinstance(x, Vec))
pred('boolean?', lambda x: isinstance(x, bool))
pred('procedure?', is_proc)
pred('not', lambda x: x is False)
pred('number?', is_num)


@prim('list?', 1)
def _(m, x):
    n = 0
    while isinstance(x, Pair):
        x = x.cdr
        n += 1
        if n > 100000:
            return False
    return x is NIL


@prim('eq?', 2)
def _(m, a, b):
    return eqv(a, b)


@prim('eqv?', 2)
def _(m, a, b):
    return eqv(a, b)


@prim('equal?', 2)
def _(m, a, b):
    return equal(a, b)


# pairs
@prim('cons', 2)
def _(m, a, b):
    return Pair(a, b)


def car(x):
    need(isinstance(x, Pair))
    return x.car


def cdr(x):
    need(isinstance(x, Pair))
    return x.cdr


PRIMS['car'] = (S('car'), Prim('car', lambda m, x: car(x), 1, 1))
PRIMS['cdr'] = (S('cdr'), Prim('cdr', lambda m, x: cdr(x), 1, 1))
PRIMS['cadr'] = (S('cadr'), Prim('cadr', lambda m, x: car(cdr(x)), 1, 1))
PRIMS['cddr'] = (S('cddr'), Prim('cddr', lambda m, x: cdr(cdr(x)), 1, 1))
PRIMS['caddr'] = (S('caddr'), Prim('caddr', lambda m, x: car(cdr(cdr(x))), 1, 1))


@prim('list', 0, None)
def _(m, *a):
    return from_list(list(a))


@prim('append', 0, None)
def _(m, *a):
    if not a:
        return NIL
    r = a[-1]
    for l in reversed(a[:-1]):
        r = from_list(to_list(l), r)
    return r


def circular(l):
    seen = set()
    while isinstance(l, Pair):
        if id(l) in seen:
            return True
        seen.add(id(l))
        l = l.cdr
    return False


@prim('length', 1)
def _(m, l):
    need(not circular(l))
    return len(to_list(l))


@prim('reverse', 1)
def _(m, l):
    need(not circular(l))
    return from_list(to_list(l)[::-1])


@prim('list-ref', 2)
def _(m, l, i):
    need(is_int(i) and i >= 0)
    for _ in range(i):
        l = cdr(l)
    return car(l)


@prim('list-tail', 2)
def _(m, l, i):
    need(l is NIL or isinstance(l, Pair))
    need(is_int(i) and i >= 0)
    for _ in range(i):
        l = cdr(l)
    return l


@prim('list-head', 2)
def _(m, l, i):
    need(is_int(i) and i >= 0)
    r = []
    for _ in range(i):
        r.append(car(l))
        l = cdr(l)
    return from_list(r)


@prim('last-pair', 1)
def _(m, l):
    if l is NIL:
        return NIL
    need(isinstance(l, Pair))
    if circular(l):
        raise OutOfDomain('circular')
    while isinstance(l.cdr, Pair):
        l = l.cdr
    return l


FROZEN = {}          # keys of hash tables, and the handles: changing them is unspecified


def thaw(x):
    if id(x) in FROZEN:
        raise OutOfDomain('changing the key of a hash table')


def freeze(x, depth=0):
    if isinstance(x, (Pair, Vec, Str)) and id(x) not in FROZEN:
        if depth > 100 or len(FROZEN) > LONG:
            raise OutOfDomain('big key')
        FROZEN[id(x)] = x
        for y in (x.car, x.cdr) if isinstance(x, Pair) else x.v if isinstance(x, Vec) else ():
            freeze(y, depth + 1)


@prim('set-car!', 2)
def _(m, p, v):
    need(isinstance(p, Pair))
    thaw(p)
    if isinstance(p, Handle):
        raise OutOfDomain('changing the key of a hash table')
    p.car = v
    return NONE


@prim('set-cdr!', 2)
def _(m, p, v):
    need(isinstance(p, Pair))
    thaw(p)
    p.cdr = v
    return NONE


def member(eq):
    def f(m, x, l):
        need(l is NIL or isinstance(l, Pair))
        if circular(l):
            raise OutOfDomain('circular')
        while isinstance(l, Pair):
            if eq(x, l.car):
                return l
            l = l.cdr
        return False
    return f


for n_, e_ in (('memq', eqv), ('memv', eqv), ('member', equal)):
    PRIMS[n_] = (S(n_), Prim(n_, member(e_), 2, 2))


def assoc(eq):
    def f(m, x, l):
        need(l is NIL or isinstance(l, Pair))
        if circular(l):
            raise OutOfDomain('circular')
        while isinstance(l, Pair):
            if isinstance(l.car, Pair) and eq(x, l.car.car):
                return l.car
            l = l.cdr
        return False
    return f


for n_, e_ in (('assq', eqs), ('assv', eqv), ('assoc', equal)):
    PRIMS[n_] = (S(n_), Prim(n_, assoc(e_), 2, 2))


@prim('acons', 3)
def _(m, a, b, l):
    return Pair(Pair(a, b), l)


@prim('assoc-ref', 2)
def _(m, l, x):
    r = assoc(equal)(m, x, l)
    return r.cdr if r is not False else False


def alist(l):
    need(l is NIL or isinstance(l, Pair))
    if circular(l):
        raise OutOfDomain('circular')
    r = []
    while isinstance(l, Pair):
        r.append(l.car)
        l = l.cdr
    if l is not NIL:
        raise OutOfDomain('improper alist')
    return r


def assoc_set(eq):
    """A new list, as the implementation documents: the entries of the key replaced, or one put in front."""
    def f(m, l, x, v):
        r = alist(l)
        hit = [isinstance(e, Pair) and eq(x, e.car) for e in r]
        if not any(hit):
            return from_list([Pair(x, v)] + r)
        return from_list([Pair(x, v) if h else e for e, h in zip(r, hit)])
    return f


PRIMS['assq-set!'] = (S('assq-set!'), Prim('assq-set!', assoc_set(eqs), 3, 3))
PRIMS['assoc-set!'] = (S('assoc-set!'), Prim('assoc-set!', assoc_set(equal), 3, 3))


@prim('assoc-remove!', 2)
def _(m, l, x):
    r = alist(l)
    for i, e in enumerate(r):
        if isinstance(e, Pair) and equal(x, e.car):
            del r[i]
            break
    return from_list(r)


# numbers
def nn(*xs):
    for x in xs:
        need(is_num(x))


@prim('+', 0, None)
def _(m, *xs):
    nn(*xs)
    return fold(lambda a, b: a + b, xs, 0)


@prim('*', 0, None)
def _(m, *xs):
    nn(*xs)
    return fold(lambda a, b: a * b, xs, 1)


@prim('-', 1, None)
def _(m, x, *xs):
    nn(x, *xs)
    if not xs:
        return num(-x)
    return fold(lambda a, b: a - b, xs, x)


def div(a, b):
    if b == 0:
        raise err(ERROR)
    return a / b if isinstance(a, float) else Fraction(a) / Fraction(b)


@prim('/', 0, None)
def _(m, *xs):
    nn(*xs)
    if not xs:
        return 1
    return fold(div, xs[1:], xs[0]) if len(xs) > 1 else fold(div, xs, 1)


def cmp(name, ok):
    def g(m, *xs):
        if len(xs) < 2:
            return True
        for a, b in zip(xs, xs[1:]):
            nn(a, b)
            if ncmp(a, b) not in ok:
                return False
        return True
    PRIMS[name] = (S(name), Prim(name, g, 0, None))


cmp('=', (0,))
cmp('<', (-1,))
cmp('>', (1,))
cmp('<=', (-1, 0))
cmp('>=', (1, 0))


def npred(name, f, dom=is_num):
    def g(m, x):
        need(dom(x))
        return bool(f(x))
    PRIMS[name] = (S(name), Prim(name, g, 1, 1))


npred('zero?', lambda x: x == 0)
npred('positive?', lambda x: x > 0)
npred('negative?', lambda x: x < 0)


def whole(x):
    return is_int(x) or (isinstance(x, float) and x - x == 0 and x == math.floor(x))


npred('odd?', lambda x: x % 2 == 1, whole)
npred('even?', lambda x: x % 2 == 0, whole)
pred('integer?', is_int)
pred('rational?', lambda x: is_num(x) and not isinstance(x, float))
pred('real?', is_num)
pred('complex?', is_num)
pred('exact?', lambda x: is_num(x) and not isinstance(x, float))
pred('inexact?', lambda x: isinstance(x, float))


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


@prim('quotient', 2)
def _(m, a, b):
    need(is_int(a) and is_int(b) and b != 0)
    return num(trunc_div(a, b))


@prim('remainder', 2)
def _(m, a, b):
    need(is_int(a) and is_int(b) and b != 0)
    return a - b * trunc_div(a, b)


@prim('modulo', 2)
def _(m, a, b):
    need(is_int(a) and is_int(b) and b != 0)
    return a % b


@prim('gcd', 0, None)
def _(m, *xs):
    for x in xs:
        need(is_int(x))
    return num(math.gcd(*xs))


@prim('lcm', 0, None)
def _(m, *xs):
    for x in xs:
        need(is_int(x))
    r = 1
    bad = False
    for x in xs:
        r = math.lcm(r, x)
        bad = bad or r >= I64
    if bad and r < I64 or -I64 in xs:
        raise OutOfDomain('intermediate overflow')
    return num(r)


@prim('abs', 1)
def _(m, x):
    nn(x)
    return num(abs(x))


def extremum(want):
    def g(m, *xs):
        if not xs:
            raise err(ERROR)
        nn(*xs)
        r = xs[0]
        for x in xs[1:]:
            if ncmp(x, r) == want:
                r = x
        return flo(r) if any(isinstance(x, float) for x in xs) else r
    return g


PRIMS['max'] = (S('max'), Prim('max', extremum(1), 0, None))
PRIMS['min'] = (S('min'), Prim('min', extremum(-1), 0, None))


@prim('expt', 2)
def _(m, a, b):
    nn(a, b)
    if not is_int(b) or isinstance(a, float):
        try:
            r = math.pow(flo(a), flo(b))
        except ValueError:
            raise OutOfDomain('expt domain')
        except OverflowError:
            raise OutOfDomain('expt overflow')
        return r
    if b == 0:
        return 1
    if a == 0:
        return 0
    if a in (1, -1):
        return a if b % 2 else 1
    if abs(b) > 200:
        raise err(ERROR)
    if b < 0:
        num(Fraction(a) ** -b)
        return num(1 / Fraction(a) ** -b)
    return num(Fraction(a) ** b)


@prim('sqrt', 1)
def _(m, x):
    nn(x)
    need(flo(x) >= 0)
    return math.sqrt(flo(x))


@prim('number->string', 1, 2)
def _(m, x, radix=10):
    nn(x)
    need(is_int(radix))
    need(2 <= radix <= 36)
    if isinstance(x, float):
        need(radix == 10)
        if x - x != 0:
            raise OutOfDomain('inf/nan')
        if x == int(x) and -2.0 ** 63 <= x < 2.0 ** 63:
            return Str('%.1f' % x)
        for d in range(6, 18):
            if float('%.*g' % (d, x)) == x:
                return Str('%.*g' % (d, x))
    if isinstance(x, Fraction):
        need(radix == 10)
        return Str(show(x))
    if x == 0:
        return Str('0')
    d = ''
    n = abs(x)
    while n:
        d = '0123456789abcdefghijklmnopqrstuvwxyz'[n % radix] + d
        n //= radix
    return Str(('-' if x < 0 else '') + d)


@prim('string->number', 1, 2)
def _(m, s, radix=10):
    need(isinstance(s, Str))
    need(is_int(radix) and 2 <= radix <= 36)
    v = number_token(s.s, radix)
    return False if v is None or v == 'range' else v


# chars
def ch(x):
    need(isinstance(x, Char))
    return x.c


@prim('char->integer', 1)
def _(m, c):
    return ord(ch(c))


@prim('integer->char', 1)
def _(m, n):
    need(is_int(n) and 0 <= n < 256)
    return Char(chr(n))


def cpred(name, f):
    PRIMS[name] = (S(name), Prim(name, lambda m, c: bool(f(ch(c))), 1, 1))


def isasc(c, f):
    return ord(c) < 128 and f(c)


cpred('char-alphabetic?', lambda c: isasc(c, str.isalpha))
cpred('char-numeric?', lambda c: isasc(c, str.isdigit))
cpred('char-whitespace?', lambda c: c in ' \t\n\r\f\v')
cpred('char-upper-case?', lambda c: isasc(c, str.isupper))
cpred('char-lower-case?', lambda c: isasc(c, str.islower))


def up(s):
    return ''.join(c.upper() if 'a' <= c <= 'z' else c for c in s)


def down(s):
    return ''.join(c.lower() if 'A' <= c <= 'Z' else c for c in s)


PRIMS['char-upcase'] = (S('char-upcase'), Prim('char-upcase', lambda m, c: Char(up(ch(c))), 1, 1))
PRIMS['char-downcase'] = (S('char-downcase'), Prim('char-downcase', lambda m, c: Char(down(ch(c))), 1, 1))


def ordpair(prefix, get):
    for suffix, f in (('=?', lambda a, b: a == b), ('<?', lambda a, b: a < b), ('>?', lambda a, b: a > b),
                      ('<=?', lambda a, b: a <= b), ('>=?', lambda a, b: a >= b)):
        for ci in ('', '-ci'):
            def g(m, a, b, f=f, ci=ci):
                a, b = get(a), get(b)
                return f(up(a), up(b)) if ci else f(a, b)
            n = f'{prefix}{ci}{suffix}'
            PRIMS[n] = (S(n), Prim(n, g, 2, 2))


ordpair('char', ch)


# strings
def st(x):
    need(isinstance(x, Str))
    return x.s


ordpair('string', st)


def rng(s, a, b):
    if b is None:
        b = len(s)
    need(is_int(a) and is_int(b) and 0 <= a <= b <= len(s))
    return a, b


@prim('string-length', 1)
def _(m, s):
    return len(st(s))


@prim('string-ref', 2)
def _(m, s, i):
    need(is_int(i) and 0 <= i < len(st(s)))
    return Char(s.s[i])


@prim('string-set!', 3)
def _(m, s, i, c):
    need(is_int(i) and 0 <= i < len(st(s)))
    thaw(s)
    s.s = s.s[:i] + ch(c) + s.s[i + 1:]
    return NONE


@prim('substring', 3)
def _(m, s, a, b):
    a, b = rng(st(s), a, b)
    return Str(s.s[a:b])


@prim('string-append', 0, None)
def _(m, *ss):
    return Str(''.join(st(s) for s in ss))


@prim('string', 0, None)
def _(m, *cs):
    return Str(''.join(ch(c) for c in cs))


@prim('make-string', 1, 2)
def _(m, n, c=None):
    size(n)
    if c is None:
        if n:
            c = Char(' ')
        else:
            return Str('')
    return Str(ch(c) * n)


@prim('string-copy', 1)
def _(m, s):
    return Str(st(s))


@prim('string->list', 1)
def _(m, s):
    return from_list([Char(c) for c in st(s)])


@prim('list->string', 1)
def _(m, l):
    return Str(''.join(ch(c) for c in lax_list(l)))


@prim('string-fill!', 2)
def _(m, s, c):
    s.s = ch(c) * len(st(s))
    return NONE


@prim('string->symbol', 1)
def _(m, s):
    if '\0' in st(s):
        raise OutOfDomain('NUL in a symbol')
    return S(s.s)


@prim('symbol->string', 1)
def _(m, s):
    need(isinstance(s, Sym))
    if s.name[:1] == '\x01':
        raise OutOfDomain('the name of a made-up symbol')
    return Str(s.name)


@prim('string-null?', 1)
def _(m, s):
    return st(s) == ''


# vectors
def vv(x):
    need(isinstance(x, Vec))
    return x.v


@prim('vector', 0, None)
def _(m, *a):
    return Vec(list(a))


@prim('make-vector', 1, 2)
def _(m, n, x=None):
    size(n)
    if x is None and n:
        x = NONE
    return Vec([x] * n)


@prim('vector-length', 1)
def _(m, v):
    return len(vv(v))


@prim('vector-ref', 2)
def _(m, v, i):
    need(is_int(i) and 0 <= i < len(vv(v)))
    return v.v[i]


@prim('vector-set!', 3)
def _(m, v, i, x):
    need(is_int(i) and 0 <= i < len(vv(v)))
    thaw(v)
    v.v[i] = x
    return NONE


@prim('vector->list', 1)
def _(m, v):
    return from_list(list(vv(v)))


@prim('list->vector', 1)
def _(m, l):
    return Vec(lax_list(l))


# hash tables
@prim('make-hash-table', 0, 1)
def _(m, n=31):
    need(n is NIL or is_int(n) and n >= 0)
    return Hash()


def hfind(h, k, eq):
    need(isinstance(h, Hash))
    for p in h.d:
        if eq(p.car, k):
            return p
    return None


for pre_, eq_ in (('hashq', eqs), ('hashv', eqs), ('hash', equal)):
    def _set(m, h, k, v, eq=eq_):
        p = hfind(h, k, eq)
        if p is None:
            if eq is equal:
                freeze(k)
            h.d.append(Handle(k, v))
        else:
            p.cdr = v
        return v

    def _ref(m, h, k, eq=eq_):
        p = hfind(h, k, eq)
        return p.cdr if p is not None else False

    def _handle(m, h, k, eq=eq_):
        p = hfind(h, k, eq)
        return p if p is not None else False

    def _create(m, h, k, v, eq=eq_):
        p = hfind(h, k, eq)
        if p is None:
            if eq is equal:
                freeze(k)
            p = Handle(k, v)
            h.d.append(p)
        return p

    def _remove(m, h, k, eq=eq_):
        p = hfind(h, k, eq)
        if p is not None:
            h.d.remove(p)
        return NONE
    for n_, f_, lo_, hi_ in ((pre_ + '-set!', _set, 3, 3), (pre_ + '-ref', _ref, 2, 2),
                             (pre_ + '-get-handle', _handle, 2, 2),
                             (pre_ + '-create-handle!', _create, 3, 3), (pre_ + '-remove!', _remove, 2, 2)):
        PRIMS[n_] = (S(n_), Prim(n_, f_, lo_, hi_))


@prim('hash-fold', 3, ctl=True)
def _(m, args, k):
    # the order is not specified: programs fold so that it does not matter, or over one entry
    f, init, h = args
    need(isinstance(h, Hash))
    if not is_proc(f):
        raise OutOfDomain('hash-fold order')
    ents = [(p.car, p.cdr) for p in h.d]

    def step(i, acc):
        if i == len(ents):
            return (k, acc)
        return m.apply(f, [ents[i][0], ents[i][1], acc], lambda v: step(i + 1, v))
    return step(0, init)


# ports
LOOSE = set()


def lprim(name, lo, hi, ctl=False):
    """A built-in that takes up to hi arguments and ignores any more, which nothing specifies."""
    d0 = prim(name, lo, None, ctl)

    def d(f):
        LOOSE.update(name.split())
        for n in name.split():
            MAXARGS[n] = hi
        return d0(f)
    return d


MAXARGS = {}


def out_arg(p):
    """The optional port argument; () stands for none."""
    if p is None or p is NIL:
        return None
    need(isinstance(p, Port) and p.can_write())
    return None if p.kind == 'ostd' else p


def emit(m, text, p, k):
    if p is None:
        m.out.append(text)
    elif p.kind != 'soft':
        if not p.closed:
            p.buf.append(text)
    elif not p.closed:
        f = p.data.v[0]

        def step(i):
            if i == len(text):
                return (k, NONE)
            if f is False:
                return step(len(text))
            if not isinstance(f, (Closure, Prim)):
                raise OutOfDomain('soft port procedure')
            return m.apply(f, [Char(text[i])], lambda _: step(i + 1))
        return step(0)
    return (k, NONE)


def text(x, write, p):
    OPAQUE[0] = False
    t = show(x, write)
    if p is not None and OPAQUE[0]:
        raise OutOfDomain('printed form of an opaque object as data')
    return t


@lprim('display', 1, 2, ctl=True)
def _(m, a, k):
    p = out_arg(a[1] if len(a) > 1 else None)
    return emit(m, text(a[0], False, p), p, k)


@lprim('write', 1, 2, ctl=True)
def _(m, a, k):
    p = out_arg(a[1] if len(a) > 1 else None)
    return emit(m, text(a[0], True, p), p, k)


@lprim('newline', 0, 1, ctl=True)
def _(m, a, k):
    return emit(m, '\n', out_arg(a[0] if a else None), k)


@lprim('write-char', 1, 2, ctl=True)
def _(m, a, k):
    c = ch(a[0])
    return emit(m, c, out_arg(a[1] if len(a) > 1 else None), k)


@prim('open-output-string', 0)
def _(m):
    return Port('ostr')


@prim('open-input-string', 1)
def _(m, s):
    return Port('istr', st(s))


@prim('get-output-string', 1)
def _(m, p):
    need(isinstance(p, Port) and p.kind == 'ostr')
    return Str(''.join(p.buf))


@lprim('make-soft-port', 2, 2)
def _(m, v, modes):
    need(isinstance(v, Vec) and len(v.v) in (5, 6) and isinstance(modes, Str) and ('r' in modes.s or 'w' in modes.s))
    p = Port('soft', v)
    p.modes = modes.s
    return p


def in_arg(p):
    need(isinstance(p, Port) and p.can_read())
    if p.kind == 'istd':
        raise OutOfDomain('standard input')
    if p.broken:
        raise OutOfDomain('port position after a read error')
    return p


@lprim('read-char', 0, 1, ctl=True)
def _(m, a, k):
    need(a)
    p = in_arg(a[0])
    if p.closed:
        return (k, EOF)
    if p.kind == 'soft':
        f = p.data.v[3]
        if f is False:
            return (k, EOF)
        if not isinstance(f, (Closure, Prim)):
            raise OutOfDomain('soft port procedure')
        return m.apply(f, [], lambda v: (k, v if isinstance(v, Char) else EOF))
    if p.pos >= len(p.data):
        return (k, EOF)
    p.pos += 1
    return (k, Char(p.data[p.pos - 1]))


def no_soft(p):
    if p.kind == 'soft':
        raise OutOfDomain('look-ahead in a soft port')
    return p


@lprim('peek-char', 0, 1)
def _(m, *a):
    need(a)
    p = no_soft(in_arg(a[0]))
    return EOF if p.closed or p.pos >= len(p.data) else Char(p.data[p.pos])


@lprim('char-ready?', 0, 1)
def _(m, *a):
    if not a or a[0] is NIL:
        raise OutOfDomain('standard input')
    p = no_soft(in_arg(a[0]))
    return not p.closed and p.pos < len(p.data)


@lprim('read', 0, 1)
def _(m, *a):
    need(a)
    p = no_soft(in_arg(a[0]))
    if p.closed:
        return EOF
    i = skip_ws(p.data, p.pos)
    if i >= len(p.data):
        p.pos = i
        return EOF
    if '\0' in p.data:
        raise OutOfDomain('NUL in a datum')
    try:
        v, p.pos = read_at(p.data, i)
    except ReadError:
        p.broken = True
        raise err(ERROR)
    return v


@prim('eof-object?', 1)
def _(m, x):
    return x is EOF


@prim('input-port?', 1)
def _(m, x):
    if isinstance(x, Port) and x.kind == 'soft' and x.modes != 'r':
        return 'r' in x.modes
    return isinstance(x, Port) and x.can_read()


@prim('output-port?', 1)
def _(m, x):
    return isinstance(x, Port) and x.can_write()


def close(m, p, k):
    if p.closed:
        return (k, NONE)
    if p.kind[1:] == 'std':
        raise OutOfDomain('a standard port closed')
    if p.kind == 'soft':
        f = p.data.v[4]

        def done(_):
            p.closed = True
            return (k, NONE)
        if f is False:
            return done(None)
        if not isinstance(f, (Closure, Prim)):
            raise OutOfDomain('soft port procedure')
        return m.apply(f, [], done)
    p.closed = True
    if p.kind == 'ofile':
        m.files[p.name] = ''.join(p.buf)
        m.open_files[p.name] -= 1
    if p.kind == 'ifile':
        m.open_files[p.name] -= 1
    return (k, NONE)


def current(m, a, d):
    return m.current[d]


def set_current(m, a, d):
    need(isinstance(a[0], Port))
    if a[0].kind == 'soft':
        raise OutOfDomain('a soft port as current port')
    need(a[0].can_read() if d == 'in' else a[0].can_write())
    old, m.current[d] = m.current[d], a[0]
    return old


for _d in ('in', 'out'):
    prim(f'current-{_d}put-port', 0, ctl=True)(lambda m, a, k, d=_d: (k, current(m, a, d)))
    prim(f'set-current-{_d}put-port', 1, ctl=True)(lambda m, a, k, d=_d: (k, set_current(m, a, d)))


@prim('close-input-port', 1, ctl=True)
def _(m, a, k):
    need(isinstance(a[0], Port) and a[0].can_read())
    return close(m, a[0], k)


@prim('close-output-port', 1, ctl=True)
def _(m, a, k):
    need(isinstance(a[0], Port) and a[0].can_write())
    return close(m, a[0], k)


@lprim('force-output', 0, 1, ctl=True)
def _(m, a, k):
    p = out_arg(a[0] if a else None)
    if p is not None and p.kind == 'soft' and not p.closed:
        f = p.data.v[2]
        if f is not False:
            if not isinstance(f, (Closure, Prim)):
                raise OutOfDomain('soft port procedure')
            return m.apply(f, [], lambda _: (k, NONE))
    return (k, NONE)


def file_name(x):
    n = st(x)
    if '\0' in n or '/' in n and n.split('/')[0] != 'no-such-dir' or n in ('', '.', '..') or len(n) > 100:
        raise OutOfDomain('file name')
    return n


def open_in(m, name):
    n = file_name(name)
    need(n in m.files and '/' not in n)
    if m.open_files.get(n) and not all(q.kind == 'ifile' or q.closed for q in m.ports if q.name == n):
        raise OutOfDomain('file open for writing')
    p = Port('ifile', m.files[n])
    p.name = n
    m.open_files[n] = m.open_files.get(n, 0) + 1
    m.ports.append(p)
    return p


def open_out(m, name):
    n = file_name(name)
    need('/' not in n)
    if m.open_files.get(n):
        raise OutOfDomain('file already open')
    p = Port('ofile')
    p.name = n
    m.files[n] = ''
    m.open_files[n] = 1
    m.ports.append(p)
    return p


@prim('open-input-file', 1)
def _(m, name):
    return open_in(m, name)


@prim('open-output-file', 1)
def _(m, name):
    return open_out(m, name)


def callable_(f):
    need(is_proc(f))
    if isinstance(f, Cont):
        raise OutOfDomain('continuation as a port receiver')
    return f


@lprim('call-with-output-string', 1, 1, ctl=True)
def _(m, a, k):
    p = Port('ostr')
    return m.apply(callable_(a[0]), [p], lambda _: (k, Str(''.join(p.buf))))


@lprim('call-with-input-string', 2, 2, ctl=True)
def _(m, a, k):
    return m.apply(callable_(a[1]), [Port('istr', st(a[0]))], k)


@lprim('call-with-input-file', 2, 2, ctl=True)
def _(m, a, k):
    st(a[0])
    callable_(a[1])
    p = open_in(m, a[0])
    return m.apply(a[1], [p], lambda v: close(m, p, lambda _: (k, v)))


@lprim('call-with-output-file', 2, 2, ctl=True)
def _(m, a, k):
    st(a[0])
    callable_(a[1])
    p = open_out(m, a[0])
    return m.apply(a[1], [p], lambda v: close(m, p, lambda _: (k, v)))


for n_, hi_ in (('make-vector', 2), ('make-string', 2), ('number->string', 2), ('string->number', 2), ('make-hash-table', 1), ('exit', 1)):
    MAXARGS[n_] = hi_
    PRIMS[n_][1].hi = None


# ---------------------------------------------------------------- running
# ---------------------------------------------------------------- modules
class ModDict(dict):
    """The variables code of a module sees: its own, then those of the interfaces it uses, the latest first. Those of the root are
    found by way of the environment above."""
    __slots__ = ('mod',)

    def get(self, s, default=None):
        v = dict.get(self, s)
        own = v is not None
        if not own:
            v = self.used(s)
        m = self.mod.machine
        if self.mod is m.root and m.module is not m.root and s.name not in PRIMS:
            if v is not None and not own or dict.get(m.module.d, s) is not None or m.module.d.used(s) is not None:
                raise OutOfDomain('code of the program looks for a variable of a module while another module is current')
        return v

    def used(self, s):
        for u in self.mod.uses:
            v = u.value(s)
            if v is not None:
                return v
        return None

    def owner(self, s):
        for u in self.mod.uses:
            o = u.owner(s)
            if o is not None:
                return o
        return None

    def __setitem__(self, s, v):
        if s.name in PRIMS:
            raise OutOfDomain('defines the name of a built-in')
        dict.__setitem__(self, s, v)
        if s in self.mod.exports:
            self.mod.iface[s] = self.mod


class RootView(ModDict):
    """What code of a module sees of the root module: its own variables."""
    __slots__ = ()

    def get(self, s, default=None):
        m = self.mod.machine
        v = dict.get(m.genv.d, s)
        if v is None and (m.genv.d.get(s) is not None or m.module.d.get(s) is not None):
            raise OutOfDomain("a variable of the current module's, not of the module's")
        return v

    def owner(self, s):
        return self.mod.machine.root if dict.__contains__(self.mod.machine.genv.d, s) else None


class Module:
    def __init__(self, machine, name):
        self.machine, self.name = machine, name
        self.uses = []
        self.exports = set()
        self.iface = None
        self.loading = False
        self.d = ModDict()
        self.d.mod = self
        self.env = Env(self.d, machine.rootview if machine.root else None)

    def value(self, s):
        """as a used module: everything, when it had no interface at that time"""
        return dict.get(self.d, s)

    def owner(self, s):
        return self if dict.__contains__(self.d, s) else None

    def find(self, s):
        v = self.d.get(s)
        return v if v is not None else dict.get(self.machine.genv.d, s)

    def find_owner(self, s):
        if dict.__contains__(self.d, s):
            return self
        return self.d.owner(s) or self.machine.root.owner(s)

    def interface(self):
        if self.iface is None:
            if self.loading:
                raise OutOfDomain('the interface of a module that has declared none yet')
            return self
        return Interface(self)

    def export(self, s):
        self.exports.add(s)
        if self.iface is None:
            self.iface = {}
        self.iface[s] = self.find_owner(s)


class Interface:
    def __init__(self, mod):
        self.mod = mod

    def value(self, s):
        o = self.mod.iface.get(s)
        return None if o is None else dict.get(o.d, s)

    def owner(self, s):
        return self.mod.iface.get(s)


class Unload:
    """The handler that restores the current module when a module's file raises an error."""
    def __init__(self, old):
        self.old = old


def use_modules(m):
    root = Module(m, 'pscm-user')
    for n, v in m.genv.d.items():
        dict.__setitem__(root.d, n, v)
    m.genv = root.env
    m.root = m.module = root
    v = RootView()
    v.mod = root
    m.rootview = Env(v, None)
    m.modules = {'(pscm-user)': root}


def resolve(m, name, k):
    """k(module), the module's file having been evaluated if this is the first time it is needed."""
    n = show(name)
    if n in m.modules:
        return k(m.modules[n])
    path = '/'.join(s.name for s in to_list(name)) + '.scm'
    if path not in m.files:
        raise OutOfDomain('a module without a file')
    mod = m.modules[n] = Module(m, n)
    mod.loading = True
    old = m.module
    m.module = mod
    h0, w0 = m.handlers, m.winds

    def k2(_):
        return (k2, None)
    m.handlers = (True, Unload(old), k2, w0, h0)
    forms = read_all(m.files[path])

    def step(i):
        if i == len(forms):
            m.handlers = h0
            m.module = old
            mod.loading = False
            return k(mod)
        return (m.ev, forms[i], mod.env, lambda _: step(i + 1))
    return step(0)


def use(m, mod, name, k):
    def got(used):
        mod.uses.insert(0, used.interface())
        return k(None)
    return resolve(m, name, got)


def modsys(m):
    if m.root is None:
        raise OutOfDomain('modules')


def at_top(m, env):
    modsys(m)
    if env is not m.module.env:
        raise OutOfDomain('module form within a program')


@special('define-module')
def _(m, x, env, k):
    at_top(m, env)
    mod = m.modules.get(show(x.cdr.car))
    if mod is not m.module or mod is m.root or mod.exports or mod.uses or mod.iface is not None:
        raise OutOfDomain('define-module elsewhere')
    opts = to_list(x.cdr.cdr)

    def step(i):
        if i == len(opts):
            return (k, NONE)
        o = opts[i].name
        if o == 'use-module':
            return use(m, mod, opts[i + 1], lambda _: step(i + 2))
        if o == 'export':
            if not isinstance(opts[i + 1], Sym):
                for s in to_list(opts[i + 1]):
                    mod.export(s)
                return step(i + 2)
            i += 1
            while i < len(opts) and isinstance(opts[i], Sym) and opts[i].name not in ('use-module', 'export', 'pure', 'autoload', 'no-backtrace'):
                mod.export(opts[i])
                i += 1
            return step(i)
        raise OutOfDomain('module option')
    return step(0)


@special('use-modules')
def _(m, x, env, k):
    at_top(m, env)
    names = to_list(x.cdr)
    mod = m.module

    def step(i):
        if i == len(names):
            return (k, NONE)
        return use(m, mod, names[i], lambda _: step(i + 1))
    return step(0)


def export(m, x, env, k):
    at_top(m, env)
    for s in to_list(x.cdr):
        m.module.export(s)
    return (k, NONE)


SPECIAL[S('export')] = SPECIAL[S('re-export')] = export


@special('define-public')
def _(m, x, env, k):
    at_top(m, env)
    n = x.cdr.car.car if isinstance(x.cdr.car, Pair) else x.cdr.car

    def c(_):
        m.module.export(n)
        return (k, NONE)
    return SPECIAL[S('define')](m, x, env, c)


@prim('current-module', 0, ctl=True)
def _(m, a, k):
    modsys(m)
    return (k, m.module)


@prim('resolve-module', 1, ctl=True)
def _(m, a, k):
    modsys(m)
    return resolve(m, a[0], lambda mod: (k, mod))


def mod_args(a):
    if not isinstance(a[0], Module) or not isinstance(a[1], Sym) or a[1].name in PRIMS:
        raise OutOfDomain('module argument')


@lprim('module-ref', 2, 3, ctl=True)
def _(m, a, k):
    mod_args(a)
    v = a[0].find(a[1])
    if v is None:
        if len(a) < 3:
            raise err('error')
        v = a[2]
    return (k, v)


@prim('module-bound?', 2, ctl=True)
def _(m, a, k):
    mod_args(a)
    return (k, a[0].find(a[1]) is not None)


@prim('module?', 1)
def _(m, x):
    return isinstance(x, Module)


def run_program(forms, max_steps=60000, files=None):
    """forms: list of source strings. Returns a list of expected events:
    ('O', text) ('V', text) ('N',) ('X', key, builtin) ('E', exit code)."""
    m = Machine(max_steps)
    if files is not None:
        m.files = dict(files)
        use_modules(m)
    ev = []
    for f in forms:
        x = read_one(f)
        m.out = []
        try:
            kind, v = m.run_form(x)
        except Exit as e:
            if m.out:
                ev.append(('O', ''.join(m.out)))
            if not is_int(e.code):
                raise OutOfDomain('exit code')
            ev.append(('E', e.code & 0xff))
            return ev, m
        if m.out:
            ev.append(('O', ''.join(m.out)))
        if any(c in t for t in m.out for c in '\x01\x02\x03\x04\x1e'):
            raise OutOfDomain('a character of the event protocol')
        if kind == 'X':
            ev.append(('X', v.key.name, v.builtin))
        elif v is NONE or v is EOF:
            ev.append(('N',))
        elif isinstance(v, Values):
            raise OutOfDomain('multiple values at top level')
        else:
            t = show(v)
            if any(c in t for c in '\x01\x02\x03\x04\x1e'):
                raise OutOfDomain('a character of the event protocol')
            ev.append(('V', t))
    return ev, m
