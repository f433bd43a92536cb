#!/usr/bin/env python3
import _path, area, hist

RULE = ('sequences of hash table calls, one equivalence per table, with keys of every type, handles and growing tables; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C16', RULE, ['hash'], histories=[hist.hash_history])
