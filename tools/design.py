"""Rewrite the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- seeded -->'
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read().split(MARK)[0]
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                                      ' '.join(m['what_it_breaks'].split())))
open(path, 'w').write(text + MARK + '\n## Seeded bugs\n\nAll pass the stable tests; all are caught '
                      'by the quick check of the property named.\n\n| bug | caught by | what it '
                      'breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
