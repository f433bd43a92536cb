#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
V = os.path.dirname(here)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(props.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        for x in p['files'] + [m[1] for m in p['mech']]:
            assert os.path.exists('/repo/' + x), x
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        a['hook_needed'] = p['hook']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in sorted(props.P, key=lambda p: p['id']):
    c = p['id'].lower()
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    assert os.path.exists(os.path.join(V, 'checks', c + '.py')), c
    checks.append(dict(property=p['id'], quick_cmd=f'VERIF_TIER=quick python3 checks/{c}.py', thorough_cmd=f'VERIF_TIER=thorough python3 checks/{c}.py',
                       evidence_file=f'evidence/{p["id"]}.json', technique=p['technique'], level=p['level'], level_note=p['note']))
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='PSCM_VERIF', enable='harness/Makefile compiles /repo/src/c/*.cc with -DPSCM_VERIF', source_commits=hooks[::-1]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
