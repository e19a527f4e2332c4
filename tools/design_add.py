#!/usr/bin/env python3
"""design_add.py < text: inserts a property section before '## Genuine defects' of DESIGN.md (replaces the section with the same heading)."""
import sys, re
t = sys.stdin.read().strip() + "\n\n"; s = open("/verif/DESIGN.md").read(); h = t.split()[1]
s = re.sub(r"### %s .*?(?=\n### |\n## )" % h, "", s, flags=re.S) if ("### %s " % h) in s else s
s = s.replace("## Genuine defects", t + "## Genuine defects", 1); s = re.sub(r"\n{3,}", "\n\n", s); open("/verif/DESIGN.md", "w").write(s)
