#!/usr/bin/env python3
"""addprop.py FILE: appends the entry in FILE to tools/props.mjs (kept in id order by gen)."""
import sys
p='/verif/tools/props.mjs';s=open(p).read();m='];\nexport const notApplicable'
assert m in s
open(p,'w').write(s.replace(m,open(sys.argv[1]).read().rstrip()+'\n'+m))
