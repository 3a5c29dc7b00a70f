#!/usr/bin/env python3
"""claim.py ID 'level note' -- marks a property as claimed in props_table.py."""
import sys, re
p = "/verif/tools/props_table.py"
s = open(p).read()
pid, note = sys.argv[1:3]
i = s.index(f'prop("{pid}"')
j = s.find("\nprop(", i + 5)
j = len(s) if j < 0 else j
blk = s[i:j].replace("technique=T_REPLAY, claimed=False, reason=TODO)", f"level_note={note!r}, technique=T_REPLAY)")
assert blk != s[i:j], "already claimed?"
open(p, "w").write(s[:i] + blk + s[j:])
