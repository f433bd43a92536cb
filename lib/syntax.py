"""Random data, and random ways to spell, build and damage them."""
import re
from fractions import Fraction
import refscm
from refscm import Char, NIL, Pair, S, Str, Sym, Vec, from_list, show

INITIAL = 'abcdefghijklmnopqrstuvwxyzABCXYZ!$%&*/<=>?^_~'
SUBSEQ = INITIAL + '0123456789+-.@'
ODD = ['+', '-', '...', '1+', '-1+', '->x', '+a', '-a', '..', '.x', 'a.b', '1a', '1.2.3', '12e', '1/2/3', '3-4', '<=>', 'a@b', '-.', '+.e', '--', '1-', 'e5', 'T', 'quote',
       'quasiquote', 'unquote', 'unquote-splicing', 'define', 'if', 'lambda', 'else', '=>', 't', 'f', 'nil', '0x1', '#t'[1:], '/', '1e', '2d3', '-1/', '+1+']
BRACED = ['a b', ' ', '(', ')', '"', ';', "'", '#', '12', '1.5', '-', '{}', 'a{b}c', '{{x} {y}}', 'A b', '\\', '\n', '#t', '1/2', ',@', '.', '|', '[x]', '#\\a', 'x}#y{', 'é'[:0] + 'é']
BRACED = [b for b in BRACED if all(b[:i].count('{') >= b[:i].count('}') for i in range(len(b) + 1)) and ord(max(b)) < 128]
PLAIN = re.compile(r'[A-Za-z0-9!$%&*/<=>?^_~+.@:-]+$')
SPECIAL_INTS = [0, 1, -1, 9, 10, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53 + 1, 10 ** 18, 2 ** 63 - 1, -2 ** 63, 99999999999]
GOODCHARS = ''.join(chr(c) for c in range(33, 127)) + ' \n\t'


class G:
    """data: rich = every readable type; the weights vary from datum to datum."""

    def __init__(self, r, allstr=True, anychar=False, anysym=False):
        self.r = r
        self.anychar = anychar
        self.anysym = anysym
        self.allstr = allstr
        self.budget = r.choice([3, 8, 20, 60, 250])

    def symbol(self):
        r = self.r
        if self.anysym and r.random() < 0.06:
            b = BRACED if self.anysym == 'braces' else [x for x in BRACED if '{' not in x]
            return r.choice(b) + r.choice(['', '', '', r.choice(b), r.choice(INITIAL)])
        if r.random() < 0.25:
            return r.choice(ODD)
        n = r.choice([1, 1, 2, 3, 3, 5, 8, 13, 31, 32, 33, 63, 64, 65]) if r.random() < 0.9 else r.randrange(100, 600)
        return r.choice(INITIAL) + ''.join(r.choice(SUBSEQ) for _ in range(n - 1))

    def integer(self):
        r = self.r
        if r.random() < 0.4:
            return r.choice(SPECIAL_INTS) + r.choice([0, 0, 1, -1]) * r.randrange(3) if r.random() < 0.5 else r.choice(SPECIAL_INTS)
        return r.choice([1, -1]) * r.randrange(10 ** r.randrange(1, 19))

    def flo(self):
        r = self.r
        if r.random() < 0.25:
            return r.choice([0.0, -0.0, 0.5, 1.5, -2.25, 1e21, 1e-7, 1e100, 1.7e308, 3e-308, 123456.789, 1e15, 1e16])
        m = r.randrange(1, 10 ** r.randrange(1, 15))
        return float(f'{r.choice(["", "-"])}{m}e{r.randrange(-40, 40)}')

    def string(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 20]) if r.random() < 0.93 else r.choice([63, 64, 127, 128, 255, 256, 257, 900])
        k = r.randrange(4)
        if k == 0 and self.allstr:
            return ''.join(chr(r.randrange(256)) for _ in range(n))
        if k == 1:
            return ''.join(r.choice('\\"n\nt\tr\r017; ()#\'') for _ in range(n))
        return ''.join(r.choice(GOODCHARS) for _ in range(n))

    def atom(self):
        r = self.r
        k = r.randrange(12)
        if k < 3:
            return S(self.symbol())
        if k < 5:
            v = self.integer()
            return max(-2 ** 63, min(2 ** 63 - 1, v))
        if k == 5:
            f = Fraction(r.randrange(-10 ** r.randrange(1, 10), 10 ** r.randrange(1, 10)), r.randrange(1, 10 ** r.randrange(1, 9)))
            return int(f) if f.denominator == 1 else f
        if k == 6:
            return self.flo()
        if k == 7:
            return r.random() < 0.5
        if k == 8:
            return Char(chr(r.randrange(256)) if self.anychar and r.random() < .3 else r.choice(GOODCHARS))
        if k < 11:
            return Str(self.string())
        return NIL

    def datum(self, d=0):
        r = self.r
        self.budget -= 1
        if self.budget <= 0 or d > 8 or r.random() < 0.3:
            return self.atom()
        k = r.randrange(10)
        if k < 5:
            return from_list([self.datum(d + 1) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 7]))])
        if k == 5:
            t = self.datum(d + 1)
            return from_list([self.datum(d + 1) for _ in range(r.choice([1, 1, 2, 3]))], t)
        if k < 8:
            return Vec([self.datum(d + 1) for _ in range(r.choice([0, 1, 2, 3, 5]))])
        q = S(r.choice(['quote', 'quasiquote', 'unquote', 'unquote-splicing']))
        if r.random() < 0.8:
            return from_list([q, self.datum(d + 1)])
        return from_list([q] + [self.datum(d + 1) for _ in range(r.choice([0, 2, 3]))], NIL if r.random() < 0.7 else self.atom())

    def special(self):
        """Long or deep data."""
        r = self.r
        n = r.choice([49, 50, 51, 100, 180])
        if r.random() < 0.4:
            return from_list([self.atom() for _ in range(r.choice([100, 500, 1500]))])
        x = self.atom()
        for _ in range(n):
            x = r.choice([lambda: Vec([x]), lambda: from_list([x]), lambda: from_list([S('quote'), x]), lambda: from_list([1], x)])()
        return x


def plain(name):
    return PLAIN.match(name) and (name in ODD or name[0] in INITIAL)


def braced(name):
    return '#{' + name + '}#'


# ---------------------------------------------------------------- spelling
class Speller:
    """Spells data with any white space, comments and abbreviations between the tokens."""

    def __init__(self, r, nasty=None, nul=True):
        self.r = r
        self.nasty = r.random() if nasty is None else nasty
        self.nul = nul

    def ws(self, need):
        r = self.r
        if r.random() > self.nasty:
            return ' ' if need else ''
        s = ''
        for _ in range(r.choice([1, 1, 2, 4])):
            s += r.choice([' ', '  ', '\n', '\t', '\r\n', '\f', '\v', ';\n', '; comment ) " ( \' #\\ |\n', ';;; (a . b)\n', '\n\n;"\n', ' ;\r\n'])
        return s

    def char(self, c):
        if c in ' \n\t\0':
            names = {' ': 'space', '\n': 'newline', '\t': 'tab', '\0': 'nul'}
            n = 'ht' if c == '\t' and self.r.random() < 0.4 else names[c]
            return '#\\' + self.r.choice([n, n, n.upper(), n.capitalize()])
        return '#\\' + c

    def string(self, s):
        r, out = self.r, ['"']
        for i, c in enumerate(s):
            o = '\\%03o' % ord(c)
            if c == '\\' or c == '"':
                out.append(r.choice(['\\' + c, '\\' + c, o]))
            elif c in '\0\x1d\x1e\x1f':
                out.append(o)
            elif c in '\n\t\r':
                out.append(r.choice([{'\n': '\\n', '\t': '\\t', '\r': '\\r'}[c], c, o]))
            elif r.random() < 0.1 * self.nasty:
                out.append(o)
            elif r.random() < 0.1 * self.nasty and c not in 'ntr01234567' and ord(c) < 128:
                out.append('\\' + c)
            else:
                out.append(c)
        return ''.join(out) + '"'

    def number(self, x):
        r = self.r
        if isinstance(x, int):
            s = str(abs(x))
            if r.random() < 0.15:
                s = '0' * r.randrange(1, 4) + s
            if r.random() < 0.08 and x and abs(x) < 2 ** 31:
                k = r.randrange(2, 6)
                return ('-' if x < 0 else '') + f'{abs(x) * k}/{k}'
            return '-' + s if x < 0 else r.choice(['', '', '', '+']) + s
        if isinstance(x, Fraction):
            k = r.choice([1, 1, 2, 3, 10])
            return f'{x.numerator * k}/{x.denominator * k}'
        forms = [repr(x)]
        m = repr(x)
        if m.endswith('.0') and 'e' not in m:
            forms += [m[:-1], m + '0', m + 'e0', m[:-1] + 'e+0']
        if 'e' in m:
            forms += [m.replace('e', 'E'), m.replace('e+', 'e')]
        v = r.choice(forms)
        if v[0] != '-' and r.random() < 0.1:
            v = '+' + v
        return v if float(v) == x else repr(x)

    def spell(self, x):
        r = self.r
        if x is True or x is False:
            return '#t' if x else '#f'
        if isinstance(x, (int, float, Fraction)):
            return self.number(x)
        if isinstance(x, Sym):
            return braced(x.name) if not plain(x.name) or r.random() < .03 * self.nasty else x.name
        if isinstance(x, Char):
            return self.char(x.c)
        if isinstance(x, Str):
            return self.string(x.s)
        if isinstance(x, Vec):
            return '#(' + self.seq(x.v) + ')'
        if x is NIL:
            return '(' + self.ws(False) + ')'
        if isinstance(x.car, Sym) and isinstance(x.cdr, Pair) and x.cdr.cdr is NIL and r.random() < 0.8:
            pre = {'quote': "'", 'quasiquote': '`', 'unquote': ',', 'unquote-splicing': ',@'}.get(x.car.name)
            if pre:
                w = self.ws(False)
                s = self.spell(x.cdr.car)
                if pre == ',' and not w and s[0] == '@':
                    w = ' '
                return pre + w + s
        items = []
        while isinstance(x, Pair):
            items.append(x.car)
            x = x.cdr
            # a proper tail may be spelled after a dot
            if items and isinstance(x, (Pair, type(NIL))) and (x is NIL or isinstance(x, Pair)) and r.random() < 0.04 * self.nasty:
                return '(' + self.seq(items) + self.dot() + self.spell(x) + self.ws(False) + ')'
        if x is NIL:
            return '(' + self.seq(items) + ')'
        return '(' + self.seq(items) + self.dot() + self.spell(x) + self.ws(False) + ')'

    def dot(self):
        return (self.ws(True) or ' ') + '.' + (self.ws(True) or ' ')

    def seq(self, xs):
        out = self.ws(False)
        last = ''
        for x in xs:
            t = self.spell(x)
            w = self.ws(False)
            if last and not w and not separable(last, t):
                w = self.ws(True) or ' '
            out += w + t
            last = t
        return out + self.ws(False)

    def text(self, data):
        """Several data one after the other."""
        out = self.ws(False)
        for x in data:
            out += self.spell(x) + (self.ws(True) or '\n')
        return out


def separable(a, b):
    """Whether the tokens stay apart without white space between them."""
    if a[-1] == ')' and not is_char_token(a):
        return True
    if a[-1] == '"' and not is_char_token(a):
        return True
    return b[0] in '("' and not is_char_token(a)


def is_char_token(t):
    return len(t) >= 3 and t[-3:-1] == '#\\' or t[:2] == '#\\'


# ---------------------------------------------------------------- building
def build(x, r):
    """An expression that computes the datum from its parts, without the reader doing more than atoms."""
    if isinstance(x, Sym):
        if r.random() < 0.5 or not plain(x.name):
            return f'(string->symbol {build(Str(x.name), r)})'
        return f'(quote {x.name})'
    if isinstance(x, Char):
        return f'(integer->char {ord(x.c)})'
    if isinstance(x, Str):
        if len(x.s) <= 40 and r.random() < 0.6:
            return '(string ' + ' '.join(f'(integer->char {ord(c)})' for c in x.s) + ')'
        return Speller(r, 0).string(x.s)
    if isinstance(x, Vec):
        if r.random() < 0.5:
            return '(vector ' + ' '.join(build(e, r) for e in x.v) + ')'
        return '(list->vector ' + build(from_list(x.v), r) + ')'
    if x is NIL:
        return '(list)'
    if isinstance(x, Pair):
        if r.random() < 0.5:
            items, t = [], x
            while isinstance(t, Pair):
                items.append(t.car)
                t = t.cdr
            if t is NIL:
                return '(list ' + ' '.join(build(e, r) for e in items) + ')'
        return f'(cons {build(x.car, r)} {build(x.cdr, r)})'
    if isinstance(x, Fraction):
        return f'(/ {x.numerator} {x.denominator})'
    if isinstance(x, bool):
        return '(= 1 1)' if x else '(= 1 2)'
    return Speller(r, 0).number(x)


# ---------------------------------------------------------------- damage
def damage(t, r):
    """A text near the given one."""
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        i = r.randrange(len(t) + 1)
        k = r.randrange(6)
        if k == 0 and t:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + r.choice('()()"\\.#\'`,@; \n01-+ae/') + t[i:]
        elif k == 2:
            j = r.randrange(len(t) + 1)
            i, j = min(i, j), max(i, j)
            t = t[:i] + t[j:] if r.random() < 0.5 else t[:i] + t[i:j] + t[i:j] + t[j:]
        elif k == 3:
            t = t[:i]
        elif k == 4:
            t = t[:i] + r.choice(['#', '#\\', ' . ', ',@', '#(', '((', '))', '"', ' ; ', '#t', '99999999999999999999', '1/0', '-', '#|', ']']) + t[i:]
        elif len(t) > 2 and i + 1 < len(t):
            t = t[:i] + t[i + 1] + t[i] + t[i + 2:]
    return t
