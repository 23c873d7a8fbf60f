"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(here, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)),
                 m['what_it_breaks'], m['needs']))
text = ['<!-- catchtable -->', '| caught by | bug | what it breaks | needs |',
        '|---|---|---|---|']
for p, i, w, n in sorted(rows):
    text.append('| %s | %s | %s | %s |' % (p, i, w.replace('|', '/'), n.replace('|', '/')))
text.append('<!-- /catchtable -->')
d = os.path.join(here, 'DESIGN.md')
s = open(d).read()
s = re.sub(r'<!-- catchtable -->.*<!-- /catchtable -->', lambda m: '\n'.join(text), s, flags=re.S)
open(d, 'w').write(s)
