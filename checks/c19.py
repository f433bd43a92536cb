#!/usr/bin/env python3
import _path, area, hist

RULE = ('sequences of string calls, comparisons included; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C19', RULE, ['str'], histories=[hist.string_history])
