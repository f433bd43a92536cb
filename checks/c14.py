#!/usr/bin/env python3
import _path, area

RULE = ('sequences of number->string, string->number and float arithmetic calls, spellings of numbers in every radix; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C14', RULE, ['float', 'float', 'num'])
