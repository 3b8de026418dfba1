"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
i = s.index('## Planted bugs')
s = s[:i] + '''## Planted bugs

Each is kept in `seeded/`; the check named here is the one of the property the bug was written against, and it reports
the bug (exit 1) unless noted. Written from the property texts, most of them before looking at what the checks explore.

| caught by | bug | needs | breaks |
|---|---|---|---|
''' + '\n'.join('| %s | %s | %s | %s |' % r for r in sorted(rows)) + '\n'
open(p, 'w').write(s)
