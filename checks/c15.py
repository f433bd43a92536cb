#!/usr/bin/env python3
import _path, area

RULE = ('sequences of eq?, eqv?, equal?, the mem and ass procedures and every type predicate on all types of values, shared and copied; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C15', RULE, ['eq', 'eq', 'pred'])
