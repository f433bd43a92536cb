"""Programs entered through every way in: the embedding API, loading, eval, read, the command line, the REPL."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import run, diff, refscm, expect

CC = re.compile(r'call/cc|current-continuation')


class Outcome:
    """what one form does: text put out, then how it ends: ('V', written, displayed) ('N',) ('X', key, builtin) ('E', code)"""
    __slots__ = ('form', 'datum', 'out', 'end')


def outcome(m, form):
    o = Outcome()
    x = refscm.read_one(form)
    o.form, o.datum = form, refscm.show(x, False)
    m.out = []
    try:
        kind, v = m.run_form(x)
        if kind == 'X':
            o.end = ('X', v.key.name, v.builtin)
        elif v is refscm.NONE:
            o.end = ('N',)
        elif v is refscm.EOF or isinstance(v, refscm.Values):
            raise refscm.OutOfDomain('value')
        else:
            o.end = ('V', refscm.show(v), refscm.show(v, False))
    except refscm.Exit as e:
        if not refscm.is_int(e.code):
            raise refscm.OutOfDomain('exit code')
        o.end = ('E', e.code & 0xff)
    o.out = ''.join(m.out)
    if any(c in s for s in [o.out, form] + [y for y in o.end if isinstance(y, str)] for c in '\x01\x02\x03\x04\x1e\x1d\x1f\0'):
        raise refscm.OutOfDomain('protocol')
    return o


def end_event(e):
    return e[:2] if e[0] == 'V' else e


def quoted(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def unit(rng, forms, k, loads):
    """(prefix, text of the unit, files, kind) of a way to enter the forms"""
    many = ['e'] + (['load', 'primitive-load', 'catch-load', 'thunk-load'] if loads else [])
    if len(forms) > 1:
        kind = rng.choice(many)
    else:
        kind = rng.choice(['f', 'i', 's', 's', 'eq', 'er', 'ew', 'begin', 'apply-eval'] + many)
    t = forms[0]
    if kind in 'fise':
        return kind, kind + '\n'.join(forms), {}, kind
    if kind == 'eq':
        return 'f', f'f(eval (quote {t}))', {}, kind
    if kind == 'er':
        return 'f', f'f(eval (read (open-input-string {quoted(t)})))', {}, kind
    if kind == 'ew':
        return 's', f's(eval (call-with-input-string {quoted(t)} read))', {}, kind
    if kind == 'begin':
        return 's', f's(begin {t})', {}, kind
    if kind == 'apply-eval':
        return 'f', f"f(apply eval (list (quote {t})))", {}, kind
    name = f'unit{k}.scm'
    files = {name: rng.choice(['\n', '\n\n', ' ']).join(forms) + rng.choice(['', '\n', '\n; the end'])}
    if kind == 'catch-load':
        t = f'(catch #t (lambda () (load "{name}")) (lambda (key . args) (list (quote caught) key)))'
    elif kind == 'thunk-load':
        t = f'((lambda (f) (let ((v (f "{name}"))) v)) primitive-load)'
    else:
        t = f'({kind} "{name}")'
    e = rng.choice('fis')
    return e, e + t, files, kind


def mixed(rng, forms, max_steps=60000):
    """(case units, files, expected events, kinds), or None when the reference does not cover it"""
    loads = not any(CC.search(f) for f in forms)
    m = refscm.Machine(max_steps)
    units, files, ev, kinds = [], {}, [], []
    i = 0
    try:
        while i < len(forms):
            if loads and rng.random() < .04:     # a file without forms
                name = f'empty{len(units)}.scm'
                files[name] = rng.choice([' ', '\n', '; nothing\n', '\n\n;; nothing'])
                units.append(rng.choice('fis') + f'(load "{name}")')
                kinds.append('empty')
                ev.append(('N',))
            n = rng.choice((1, 1, 1, 2, 3)) if i + 1 < len(forms) else 1
            chunk = forms[i:i + n]
            i += n
            if any(re.match(r'\(exit\b', f) for f in chunk):
                chunk, i = chunk[:1], i - len(chunk) + 1
            _, text, fs, kind = unit(rng, chunk, len(units), loads)
            units.append(text)
            files.update(fs)
            kinds.append(kind)
            end = None
            for f in chunk:
                o = outcome(m, f)
                if o.out:
                    ev.append(('O', o.out))
                end = o.end
                if end[0] == 'E':
                    ev.append(end)
                    return units, files, ev, kinds
                if end[0] == 'X' and 'load' in kind:
                    break
            if kind == 'catch-load' and end[0] == 'X':
                ev.append(('?',) if end[2] else ('V', f'(caught {end[1]})'))
            else:
                ev.append(end_event(end))
    except (refscm.OutOfDomain, refscm.ReadError, RecursionError):
        return None
    return units, files, ev, kinds


# ---- the command line tool

def outcomes(forms, max_steps=60000):
    m = refscm.Machine(max_steps)
    out = []
    try:
        for f in forms:
            out.append(outcome(m, f))
            if out[-1].end[0] == 'E':
                break
    except (refscm.OutOfDomain, refscm.ReadError, RecursionError):
        return None
    return out


def script_expected(outs):
    """stdout of a script, pieces of which are unknown: list of str; exit code"""
    s, rc = '', 0
    for o in outs:
        s += o.out
        if o.end[0] == 'V':
            s += o.end[1] + '\n'
        elif o.end[0] == 'E':
            rc = o.end[1]
    return s, rc


def layout(rng, form, much=0.06):
    """the form over several lines, with comments"""
    res, in_str, i = '', False, 0
    while i < len(form):
        c = form[i]
        if in_str:
            if c == '\\':
                res += form[i:i + 2]
                i += 2
                continue
            in_str = c != '"'
        elif c == '"':
            in_str = True
        elif c == '#' and form[i + 1:i + 2] == '\\':
            res += form[i:i + 3]
            i += 3
            continue
        elif c == '#' and form[i + 1:i + 2] == '{':
            j = form.index('}#', i) + 2
            res += form[i:j]
            i = j
            continue
        elif c == ';':
            j = form.index('\n', i) + 1
            res += form[i:j]
            i = j
            continue
        elif c == ' ' and rng.random() < much:
            c = rng.choice(['\n', '\n', ' \n\t', ' ; a comment\n', ' ; (open\n', ' ; "\n', ' ; say "(" or "\n', ' ;"("\n', " ; it's #\\( ;\n", ' ; a \\\n', ' ; \\"\n', '\n; )\n', '\n\n'])
        res += c
        i += 1
    return res


def repl_expected(outs, texts):
    s, rc = '', 0
    for o, t in zip(outs, texts):
        s += 'pscm> ' + '  ...> ' * t.count('\n')
        s += o.datum + '\n' + o.out
        if o.end[0] == 'E':
            return s, o.end[1]
        s += ' --> ' + (o.end[2] if o.end[0] == 'V' else 'none' if o.end[0] == 'N' else '<null>') + '\n'
    return s + 'pscm> \n', rc


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (16 << 20, 16 << 20))
    resource.setrlimit(resource.RLIMIT_CPU, (30, 30))


def cli(tool, jobs):
    """[(args, stdin or None, files)] -> [(rc or None, stdout, stderr)]"""
    base = tempfile.mkdtemp(prefix='pscmc-')

    def one(k):
        args, inp, files = jobs[k]
        d = os.path.join(base, str(k))
        os.makedirs(d)
        for n, t in files.items():
            open(os.path.join(d, n), 'wb').write(t.encode('latin-1'))
        try:
            p = subprocess.run([tool] + args, cwd=d, env=run.ENV, preexec_fn=_limits, input=(inp or '').encode('latin-1'),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return p.returncode, p.stdout[:1 << 20].decode('latin-1'), p.stderr[:1 << 16].decode('latin-1')
        except subprocess.TimeoutExpired:
            return None, '', ''
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(jobs))))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def clean(s):
    return diff.norm(diff.SYMTBL.sub('', s))
