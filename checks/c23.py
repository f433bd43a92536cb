#!/usr/bin/env python3
import _path, area, hist

RULE = ('sequences of calls on string, file and soft ports: reading data and characters, writing, closing, the call-with procedures; dense histories of reading, writing, copying and closing texts of all bytes and of lengths around the buffer sizes; typed and hostile arguments over variables that share structure, the whole state printed at the end; the reference predicts '
        'every value, output and error; non-trivial: at least one value, output or error')
area.run('C23', RULE, ['port'], histories=[hist.port_history], quick=(12000, 1500), nhist=(2500, 40000))
