#!/usr/bin/env python3
import _path, check, expect, refscm, syntax
from expect import Prog
from refscm import Str, show

RULE = ('random data in random spellings (white space, comments, abbreviations, dots, escapes, number and character spellings) read through the '
        'embedding API, a program file, load, string ports and file ports, and compared with the datum by its printed form and by equal? with the '
        'same datum built by procedure calls; and damaged texts, for which an independent reader says which data precede the error; non-trivial: every text')


def scheme_string(s):
    return '"' + ''.join('\\' + c if c in '\\"' else ('\\%03o' % ord(c) if c == '\0' else c) for c in s) + '"'


def data(r, k=None, allstr=True, braces=False):
    out = []
    for _ in range(k or r.choice([1, 1, 2, 3, 5])):
        g = syntax.G(r, allstr, anysym='braces' if braces else True)
        out.append(g.special() if r.random() < 0.06 else g.datum())
    return out


def V(x):
    return ('V', show(x))


def good(r, i):
    """A text that denotes data, by one of the ways in."""
    sp = syntax.Speller(r)
    way = i % 6
    xs = data(r, braces=way == 5)
    if way == 0:            # the embedding API, a form at a time
        return Prog([(sp.ws(False) + "(quote" + (sp.ws(True) or ' ') + sp.spell(x) + sp.ws(False) + ')' + sp.ws(False), [V(x)]) for x in xs])
    if way == 1:            # a program file
        return Prog([(sp.ws(False) + "'" + sp.ws(False) + sp.spell(x) + (sp.ws(True) or '\n'), [V(x)]) for x in xs], mode='file')
    if way == 2:            # load
        text = sp.ws(False)
        for j, x in enumerate(xs):
            text += f'(define{sp.ws(True) or " "}v{j}{sp.ws(True) or " "}' + "'" + sp.spell(x) + sp.ws(False) + ')' + sp.ws(False)
        return Prog([('(load "d.scm")', [('N',)])] + [(f'v{j}', [V(x)]) for j, x in enumerate(xs)], keep=1, files={'d.scm': text})
    if way in (3, 4):       # ports
        text = sp.text(xs)
        if '\x1d' in text or '\x1f' in text or '\x1e' in text:
            return None
        parts = []
        if way == 3:
            parts.append((f'(define p (open-input-string {scheme_string(text)}))', [('N',)]))
            files = None
        else:
            parts.append(('(define p (open-input-file "d.txt"))', [('N',)]))
            files = {'d.txt': text}
        parts += [('(read p)', [V(x)]) for x in xs]
        parts += [('(eof-object? (read p))', [('V', '#t')]), ('(eof-object? (read-char p))', [('V', '#t')])]
        return Prog(parts, keep=len(parts), files=files)
    # the same datum, built by calls; and a second spelling
    parts = []
    for x in xs:
        if size(x) > 120:
            x = xs[0] if size(xs[0]) <= 120 else refscm.S('q')
        parts.append((f"(equal? '{sp.spell(x)} {syntax.build(x, r)})", [('V', '#t')]))
        parts.append((f"(equal? '{sp.spell(x)} '{syntax.Speller(r).spell(x)})", [('V', '#t')]))
    return Prog(parts)


def size(x):
    n = 0
    while isinstance(x, refscm.Pair):
        n += 1 + size(x.car)
        x = x.cdr
    if isinstance(x, refscm.Vec):
        n += sum(size(e) for e in x.v)
    if isinstance(x, Str):
        n += len(x.s) // 4
    return n + 1


def values(text):
    """What an independent reader makes of the text: data, and how it ends (None, 'error', or 'unknown')."""
    out, pos = [], 0
    try:
        while True:
            pos = refscm.skip_ws(text, pos)
            if pos >= len(text):
                return out, None
            v, pos = refscm.read_at(text, pos)
            show(v)
            out.append(v)
    except refscm.ReadError:
        return out, 'error'
    except (refscm.OutOfDomain, refscm.SchemeError, RecursionError):
        return out, 'unknown'


PROBE = ('(read (open-input-string "(a . (b #(1 \\"x\\"))) c"))', [('V', '(a b #(1 "x"))')])


def damaged(r, i):
    sp = syntax.Speller(r, r.random() * 0.5)
    g = syntax.G(r, False, anysym=True)
    g.budget = r.choice([3, 6, 12, 25])
    text = syntax.damage(sp.text([g.datum() for _ in range(r.choice([1, 1, 2]))]), r)
    if any(c in text for c in '\0\x1d\x1e\x1f\x02\x03\x04'):
        return None
    vs, end = values(text)
    if end == 'unknown':
        return Prog([(f'(catch #t (lambda () (read (open-input-string {scheme_string(text)})) 1) (lambda e 1))', [('V', '1')]), PROBE])
    way = i % 4
    if way == 0:
        if end is None and len(vs) == 1:
            return Prog([(text, [V(vs[0])])], mode='parse')
        return Prog([(text, [('X', None)])], mode='parse')
    if way == 3:
        q = r.choice(["(quote ", "'"])
        if q == "'":
            vs, end = values("'" + text)
            if end == 'unknown':
                return None
            if end is None and vs:
                return Prog([("'" + text, [V(vs[0])])], mode='parse') if len(vs) == 1 else Prog([("'" + text, [('X', None)])], mode='parse')
            return Prog([("'" + text, [('X', None)])], mode='parse')
    if way == 1:
        parts, files = [(f'(define p (open-input-string {scheme_string(text)}))', [('N',)])], None
    else:
        parts, files = [('(define p (open-input-file "d.txt"))', [('N',)])], {'d.txt': text}
    parts += [('(read p)', [V(v)]) for v in vs]
    if end is None:
        parts += [('(eof-object? (read p))', [('V', '#t')])]
    else:
        parts += [("(catch #t (lambda () (read p) 'read) (lambda e 'error))", [('V', 'error')])]
    parts.append(PROBE)
    return Prog(parts, keep=len(parts), files=files)


def damaged_file(r, i):
    """A program file that does not read: nothing of it is evaluated by load's caller, and later loads work."""
    sp = syntax.Speller(r, 0.3)
    g = syntax.G(r, False)
    g.budget = r.choice([3, 6, 12])
    text = syntax.damage(f"(define a '{sp.spell(g.datum())})\n(define b '{sp.spell(g.datum())})\n", r)
    if any(c in text for c in '\0\x1d\x1e\x1f\x02\x03\x04'):
        return None
    vs, end = values(text)
    if end != 'error':
        return None
    return Prog([('(define a 1)', [('N',)]), ("(catch #t (lambda () (load \"d.scm\") 'loaded) (lambda e 'error))", [('V', 'error')]),
                 ('a', [('V', '1')]), ("(catch #t (lambda () b) (lambda e 'unbound))", [('V', 'unbound')]),
                 ('(load "e.scm")', [('N',)]), ('(list a c)', [('V', '(1 (2 . x))')])], keep=6, files={'d.scm': text, 'e.scm': "(define c '(2 . x))"})


def body(chk):
    expect.explore(chk, 'good', good, chk.n(9000, 150000)) or \
        expect.explore(chk, 'damaged', damaged, chk.n(12000, 200000)) or \
        expect.explore(chk, 'damaged files', damaged_file, chk.n(3000, 40000)) or \
        expect.explore(chk, 'good again', good, chk.n(1200, 15000), variants=('asan',)) or \
        expect.explore(chk, 'damaged again', damaged, chk.n(1500, 15000), variants=('asan',))


check.main('C21', RULE, body)
