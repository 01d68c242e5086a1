#!/usr/bin/env python3
"""fill the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and seeded/RESULTS"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.split(None, 1) for l in open(V + '/tools/seed_results.txt') if l.strip())
rows = ['<!--table-->', '', '| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/') + glob.glob(V + '/seeded_asm/*/')):
    i = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json'))
    f = lambda s: s.replace('|', '/').replace('\n', ' ')
    rows.append(f"| {i} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {res.get(i, '?').strip()} |")
rows += ['', '<!--/table-->']
p = V + '/DESIGN.md'; s = open(p).read()
t = '\n'.join(rows)
s = s.replace('@TABLE@', t) if '@TABLE@' in s else re.sub(r'<!--table-->.*<!--/table-->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
