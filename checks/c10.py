#!/usr/bin/env python3
import _path, check, contain, hostile

RULE = ('programs no correct program resembles (built-ins applied to any arguments, malformed special forms, damaged programs, endless recursion '
        'through random contexts, data and texts nested deeper than the C stack, programs that keep everything until the heap is full); observed: '
        'the process stays alive, every form has a value or an error, errors inside a catch reach it, no catch, extent or call is left active, and '
        'twelve probe forms give their usual results afterwards; correct programs with hundreds of failing evaluations (caught or not, of every kind and in every context) between their forms do what the reference predicts for them without these; non-trivial: any program')


def body(chk):
    contain.drive(chk, chk.n(1500, 20000))
    contain.drive(chk, chk.n(150, 2000), 'asan', 1)
    if chk.violations:
        return
    for kind, n, stack in (('calls', 20000, 64), ('forms', 20000, 64), ('damaged', 15000, 64), ('deep', 260, 8), ('deep', 120, 32), ('heap', 10, 64)):
        hostile.drive(chk, kind, chk.n(n, n * 12), stack=stack, timeout=dict(heap=90, deep=25).get(kind, 10), tag=str(stack))
        if chk.violations:
            return


check.main('C10', RULE, body)
