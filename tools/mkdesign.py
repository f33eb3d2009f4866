#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and seeded/caught.txt."""
import json
import os
import glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 8. Planted bugs\n'
caught = dict(x.split(None, 1) for x in open(os.path.join(HERE, 'tools', 'caught.txt')) if x.strip())
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), caught.get(i, 'not run').strip()))
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read().split(MARK)[0]
t += MARK + '''
Each was written from the text of a property and the code, compiles, passes all tests, and fails its own `demo.sh`. The last column says which checks
reported it (with "strengthened": it was missed at first, and the check was made stronger for the kind of change, not for the change).

| Plant | Effect | Needs | Caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
print(len(rows), 'plants')
