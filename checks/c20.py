#!/usr/bin/env python3
import _path, area, hist

RULE = ('sequences of character and symbol calls over the whole byte range; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C20', RULE, ['char'], histories=[hist.char_table])
