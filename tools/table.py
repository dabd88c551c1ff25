#!/usr/bin/env python3
"""rewrite the catch table of DESIGN.md from the output of catch.py --all (stdin)"""
import sys, re, json, os
V = '/verif'
rows = []
for l in sys.stdin:
    m = re.match(r'(\S+)\s+(C\d\d)\s+(caught|MISSED\S*)\s*(\S*)\s*(.*)', l)
    if m: rows.append((m.group(2), m.group(1), m.group(3), re.sub(r'\s+', ' ', m.group(5))[:110].replace('|', '/')))
t = '\n<!-- table -->\n| property | planted bug | | what it breaks |\n|---|---|---|---|\n' + '\n'.join(f'| {a} | {b} | {c} | {d} |' for a, b, c, d in sorted(rows)) + '\n<!-- end -->\n'
p = V + '/DESIGN.md'; s = open(p).read()
s = s.replace('@TABLE@', t) if '@TABLE@' in s else re.sub(r'\n<!-- table -->.*?<!-- end -->\n', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'rows')
