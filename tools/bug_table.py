#!/usr/bin/env python3
"""tools/bug_table.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (which checks catch them is
taken from tools/caught.json, which tools/try_bug.sh results are entered into with: bug_table.py LOG...)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = here + '/tools/caught.json'
caught = json.load(open(f)) if os.path.exists(f) else {}
for log in sys.argv[1:]:
    for l in open(log, errors='replace'):
        if m := re.match(r'([a-z0-9-]+): (CAUGHT|MISSED) by (C\d\d)', l):
            c = set(caught.get(m[1], []))
            (c.add if m[2] == 'CAUGHT' else c.discard)(m[3])
            caught[m[1]] = sorted(c)
ids = sorted(d for d in os.listdir(here + '/seeded') if os.path.exists(f'{here}/seeded/{d}/meta.json'))
metas = {i: json.load(open(f'{here}/seeded/{i}/meta.json')) for i in ids}
caught = {i: caught.get(i, []) for i in ids}
json.dump(caught, open(f, 'w'), indent=1, sort_keys=True)
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for i in sorted(ids, key=lambda i: (metas[i]['property'], i)):
    rows.append(f"| {i} | {metas[i]['property']} | {metas[i]['what_it_breaks'].replace('|', '/')} | {', '.join(caught[i]) or '–'} |")
d = open(here + '/DESIGN.md').read()
b, e = '<!-- bugs -->\n', '\n<!-- /bugs -->'
if b not in d:
    d += f"\n## Planted bugs\n\nEach was confirmed with `tools/try_bug.sh` (builds, passes the stable tests, demo fails with it); the last column is the check that reported it.\n\n{b}{e}\n"
d = d[:d.index(b) + len(b)] + '\n'.join(rows) + d[d.index(e):]
open(here + '/DESIGN.md', 'w').write(d)
print(len(ids), 'bugs,', sum(1 for i in ids if metas[i]['property'] in caught[i]), 'caught')
