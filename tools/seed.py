#!/usr/bin/env python3
"""Plants, checks and keeps changes that break a property.

seed.py make SPEC.py...   SPEC defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS and either SCM, EXPECT (demo: the command line
                          tool run on SCM prints EXPECT) or DEMO (text of demo.sh) and FILES {name: text}
seed.py test ID... [--check Cxx]   applies, builds, tests, runs the demo and the property's quick check; restores
Works on /repo (restored afterwards)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
ulimit -s 1000000 2>/dev/null
timeout 60 /repo/_build/pscm_cc --test "$here/demo.scm" >"$d/out" 2>"$d/err"
grep -v '^\\[symtbl\\]' "$d/out" >"$d/got"
diff "$here/expected.txt" "$d/got" || { echo "the program's output differs"; exit 1; }
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh('git -C /repo checkout -- .')


def make(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(S, g['ID'])
    os.makedirs(d, exist_ok=True)
    restore()
    for f, old, new in g['EDITS']:
        p = os.path.join('/repo', f)
        s = open(p).read()
        assert s.count(old) == 1, (g['ID'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
    restore()
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if 'DEMO' in g:
        open(os.path.join(d, 'demo.sh'), 'w').write(g['DEMO'])
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % g['BREAKS'].replace('\n', ' '))
        open(os.path.join(d, 'demo.scm'), 'w').write(g['SCM'].lstrip('\n'))
        open(os.path.join(d, 'expected.txt'), 'w').write(g['EXPECT'].lstrip('\n'))
    for n, t in g.get('FILES', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    return g['ID']


def fill(i):
    """the expected output of a demonstration that has none yet: what the unchanged tree prints (to be read before it is kept)"""
    d = os.path.join(S, i)
    e = os.path.join(d, 'expected.txt')
    if os.path.exists(e) and not open(e).read().strip():
        r = sh(f'cd {d} && ulimit -s 1000000; timeout 60 /repo/_build/pscm_cc --test demo.scm 2>/dev/null | grep -a -v "^.symtbl"')
        open(e, 'w').write(r.stdout)
        print('---', i)
        print(r.stdout)


def passed():
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    o = json.load(open('/tmp/seedtest.json'))
    return set(o['passed'])


def test(i, check=None):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = set(base['stable'])
    try:
        r = sh('bash /opt/vp/build.sh')
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        clean = r.returncode
        if clean:
            print(r.stdout[-1500:])
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout)
            return
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print(i, 'DOES NOT BUILD', b.stdout[-1500:])
            return
        miss = base - passed()
        demo = sh(f'bash {d}/demo.sh', cwd='/repo')
        c = (check or meta['property']).lower()
        k = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 {V}/checks/{c}.py')
        caught = k.returncode == 1 and f'VIOLATION property={c.upper()}' in k.stdout
        ok = clean == 0 and not miss and demo.returncode
        print(f'{i}: clean demo {clean}, tests missing {sorted(miss)[:4]}, demo {demo.returncode}: {"COUNTS" if ok else "*** DOES NOT COUNT"}; '
              f'{c}: rc {k.returncode} {"CAUGHT" if caught else "*** MISSED"}')
        if not caught or '-v' in sys.argv:
            print(k.stdout[-1500:])
    finally:
        restore()


if __name__ == '__main__':
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'uncommitted changes in /repo'
    cmd, args = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    if cmd == 'make':
        ids = [make(a) for a in args]
        sh('bash /opt/vp/build.sh')
        for i in ids:
            fill(i)
        for i in ids:
            test(i)
    else:
        chk = None
        if '--check' in sys.argv:
            chk = sys.argv[sys.argv.index('--check') + 1]
            args.remove(chk)
        for i in args or sorted(os.listdir(S)):
            test(i, chk)
    sh('bash /opt/vp/build.sh')
