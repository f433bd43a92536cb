#!/usr/bin/env python3
import _path, area

RULE = ('sequences of calls to the arithmetic and numeric comparison procedures on fixnums up to the limits, ratios and floats; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C13', RULE, ['num'])
