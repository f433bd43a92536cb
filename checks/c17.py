#!/usr/bin/env python3
import _path, area, hist

RULE = ('sequences of list and association list calls with sharing, improper and circular lists; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C17', RULE, ['list', 'alist'], histories=[hist.list_history, hist.alist_history])
