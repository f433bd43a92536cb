#!/usr/bin/env python3
import _path, area, hist

RULE = ('sequences of vector calls with sharing between vectors and lists; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C18', RULE, ['vec'], histories=[hist.vector_history])
