#!/usr/bin/env python3
"""Writes spec/EditCases.tla: the source texts of the generated editing sessions, as strings and as code points."""
import os
SRC = [
    'a 1 k=2 /*c*/ 3 "k"=(t)4 l=5 // end\n- /-0 6 {\n  b k=7; - 8 #true\n  /-x\n  - k=1 9\n}\na k=1\n',
    '/* h */ a{}; (t)b 1 /-2 3\n\n// n\n a 4',
    '',
    'n /-1 { m /-{ x } }/-{ y }\nn k=1 /-k=2\n- 1',
]
out = ['----------------------------- MODULE EditCases ------------------------------',
       '(* Source texts of generated editing sessions: as strings and as code points. *)',
       '(* Written by bin/mkcases.py.                                                  *)',
       'Sources == <<']
q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
out.append(',\n'.join('  [x |-> %s,\n   c |-> <<%s>>]' % (q(s), ','.join(str(ord(c)) for c in s)) for s in SRC))
out += ['>>', '=' * 77, '']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../spec/EditCases.tla'), 'w').write('\n'.join(out))
