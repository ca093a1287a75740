#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from a file of
lines "id: C01 C02" (which checks report the change)."""
import json, os, sys
rows = {}
for l in open(sys.argv[1]):
    i, _, c = l.partition(':')
    if c.strip():
        rows[i.strip()] = c.split()
d = open('/verif/DESIGN.md').read()
i = d.find('\n## Planted changes')
if i >= 0:
    d = d[:i]
out = ['', '## Planted changes and the checks that catch them', '',
       'Each is in `seeded/<id>/`, written from the property and the code (sources: `tools/seeds/*.py`; `tools/runseeds.sh`',
       'applies and checks them all). All are caught by the check of their own property; others may report them too.', '',
       '| change | what it breaks | reported by |', '|---|---|---|']
for n in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % n))
    w = ' '.join(m['what_it_breaks'].split()).replace('|', '/')
    out.append('| %s | %s | %s |' % (n, w, ' '.join(rows.get(n, ['(not run)']))))
open('/verif/DESIGN.md', 'w').write(d.rstrip('\n') + '\n' + '\n'.join(out) + '\n')
