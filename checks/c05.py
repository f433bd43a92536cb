#!/usr/bin/env python3
import _path, arity, gen, check, run

RULE = ('random programs dense in procedure calls: fixed and rest parameters, right and wrong argument counts, direct calls, apply, map, '
        'for-each, call-with-values, procedures as data; every built-in of fixed arity called with good arguments and one too few, one or two too many; the reference evaluator predicts every event; non-trivial: at least one event')


def body(chk):
    profs = [dict(arity=10), dict(arity=6, rest=8, apply=8, values=6, hof=12, closure=8), dict(arity=6, rest=8, apply=8, values=6, callcc=4, catch=4)]

    def make(i):
        return gen.Gen(chk.rng(i), **profs[i % len(profs)]).program()
    check.differential(chk, make, chk.n(15000, 120000))
    check.differential(chk, make, chk.n(1200, 12000), variants=('asan',))
    builtins(chk)


def builtins(chk):
    runner = run.build('plain')
    tab = arity.table()
    for rnd in range(chk.n(2, 20)):
        progs = list(arity.programs(tab, chk.rng('arity', rnd)))
        cases = [run.Case(p, mode='forms') for p in progs]
        for p, c, x in zip(progs, cases, run.run_cases(runner, cases)):
            got = [e for e in x.events if e[0] in 'VXNP']
            chk.saw('\n'.join(p))
            chk.counts['calls of built-ins with a wrong number of arguments'] += len(p)
            for f, e in zip(p, got):
                if e != ('V', 'refused'):
                    chk.violation(f'a call with the wrong number of arguments is not refused: {f} gives {e}', run.Case([f], mode='forms'), [['V', 'refused']], [list(e)])
                    break
            else:
                if not x.done or len(got) != len(p):
                    chk.violation(f'calls with the wrong number of arguments end the process: {x.ended()}', c)


check.main('C05', RULE, body)
