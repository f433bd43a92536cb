#!/usr/bin/env python3
"""Runs the case of a replay file again on the current tree: replay.py FILE"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import run, diff
v = json.load(open(sys.argv[1]))
print(v['what'])
if 'payload' in v:
    c = run.Case(v['payload'], mode=v['mode'], period=v['period'], seed=v['gcseed'], poison=v['poison'], timeout=v['timeout'])
    x = run.run_cases(run.build(v['variant']), [c])[0]
    print(c.text())
    print('ended:', x.ended())
    print('expected:', v.get('expected'))
    print('observed:', diff.observed(x))
    if x.err:
        print('stderr:', x.err[:3000])
