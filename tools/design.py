#!/usr/bin/env python3
"""Add the repairs and planted bugs that DESIGN.md doesn't list yet."""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open('DESIGN.md').read()
have = {h[1] for h in re.findall(r"\* (C\d+) `(\w+)`", s)}
add = "".join("* %s `%s` %s\n" % (p, c[:7], t) for p, c, t in re.findall(r"^fixed: property=(C\d+) (\w+) (.*)$", open('known-findings.txt').read(), re.M) if c[:7] not in have)
k = s.index("\nKnown limits that are")
s = s[:k].rstrip("\n") + "\n" + add + s[k:]
rows = set(re.findall(r"^\| ([b-z]\d\d) \|", s, re.M))
s = s.rstrip("\n") + "\n"
for d in sorted(os.listdir('seeded')):
    if d not in rows:
        m = json.load(open('seeded/%s/meta.json' % d))
        s += "| %s | %s | %s |\n" % (d, m['property'], m['what_it_breaks'])
open('DESIGN.md', 'w').write(s)
