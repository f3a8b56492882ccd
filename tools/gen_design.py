"""Fills the table of planted bugs in DESIGN.md from /verif/seeded."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'
p = os.path.join(V, 'DESIGN.md')
text = open(p).read().split(MARK)[0].replace('@@SENS@@\n', '')
missed = set((open(os.path.join(V, 'tools', 'missed.txt')).read().split()
              if os.path.exists(os.path.join(V, 'tools', 'missed.txt'))
              else []))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | "
                f"{'not caught' if i in missed else m['property']} |")
open(p, 'w').write(text + MARK + '''
Each was confirmed in a scratch copy (demonstration fails with it and passes
without it, existing tests pass with it), and the quick check of its property
run against it with seed 1.

''' + '\n'.join(rows) + '\n')
