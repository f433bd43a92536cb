"""Differential oracle: what the interpreter did against what the reference says."""
import re
import refscm

OBJ = re.compile(r'#<(procedure|builtin-func|primitive-generic)[^>]*>')


def norm(s):
    s = OBJ.sub('#<procedure>', s)
    s = re.sub(r'#<continuation[^>]*>', '#<continuation>', s)
    s = re.sub(r'#<hash-table[^>]*>', '#<hash-table>', s)
    s = re.sub(r'#<promise[^>]*>', '#<promise>', s)
    s = re.sub(r'#<(input|output)[^>]*port>', '#<port>', s)
    return s


SYMTBL = re.compile(r'\[symtbl\] [^\n]*?not found(\n| \(at [^()\n]*\)\n)?')


def observed(res):
    """Events of a run in the reference's vocabulary; output of one form merged."""
    ev = []
    for e in res.events:
        if e[0] == 'O':
            t = SYMTBL.sub('', e[1])
            if t:
                ev.append(('O', norm(t)))
        elif e[0] == 'V':
            ev.append(('V', norm(e[1])))
        elif e[0] == 'N':
            ev.append(('N',))
        elif e[0] in 'XP':
            ev.append(('X', e[1]))
        elif e[0] == 'I':
            pass
        else:
            ev.append(e)
    if not res.done:
        if res.signal:
            ev.append(('SIGNAL', res.signal))
        else:
            ev.append(('E', res.exitcode))
    return ev


def merge(ev):
    """Adjacent output joined, empty output dropped."""
    out = []
    for e in ev:
        if e[0] == 'O':
            if not e[1]:
                continue
            if out and out[-1][0] == 'O':
                out[-1] = ('O', out[-1][1] + e[1])
                continue
        out.append(e)
    return out


def same(expected, got):
    """None if equal, else (index, expected event, observed event)."""
    expected, got = merge(expected), merge(got)
    i = 0
    while True:
        x = expected[i] if i < len(expected) else None
        g = got[i] if i < len(got) else None
        if x is None and g is None:
            return None
        if x is None or g is None:
            return (i, x, g)
        if x[0] != g[0]:
            return (i, x, g)
        if x[0] == 'X':
            # user throws: the key is specified; built-in errors: only that one is reported
            if not x[2] and x[1] != g[1]:
                return (i, x, g)
        elif x[1:] != g[1:]:
            return (i, x, g)
        i += 1


def reference(forms, max_steps=60000):
    """Expected events, or None when the program is outside the modelled domain."""
    try:
        ev, m = refscm.run_program(forms, max_steps)
    except (refscm.OutOfDomain, refscm.ReadError, RecursionError):
        return None, None
    return ev, m
