#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md"""
import os, glob, json, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!--SEEDS-->', '| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json'), key=lambda d: (json.load(open(d))['property'], d)):
    m = json.load(open(d)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
rows.append('<!--/SEEDS-->')
t = open(R + '/DESIGN.md').read()
t = re.sub(r'<!--SEEDS-->(.*<!--/SEEDS-->)?', lambda _: '\n'.join(rows), t, flags=re.S)
open(R + '/DESIGN.md', 'w').write(t)
