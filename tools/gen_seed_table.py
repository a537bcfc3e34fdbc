#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(os.path.join(V, 'seeded', '*')):
    m = json.load(open(os.path.join(d, 'meta.json')))
    n = os.path.basename(d)
    rows.append((int(re.match(r'b(\d+)', n).group(1)), n, m['property'], m['what_it_breaks']))
table = ['| planted bug | caught by | what it does |', '|---|---|---|']
for _, n, p, w in sorted(rows):
    table.append('| %s | %s | %s |' % (n, p, w.replace('|', '/')))
path = os.path.join(V, 'DESIGN.md')
s = open(path).read()
a, b = '<!-- seeds -->', '<!-- end of seeds -->'
if a in s:
    i, j = s.index(a) + len(a), s.index(b)
    open(path, 'w').write(s[:i] + '\n' + '\n'.join(table) + '\n' + s[j:])
else:
    print('\n'.join(table))
