#!/usr/bin/env python3
# rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
import glob, json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(d + '/seeded/*/meta.json')):
    j = json.load(open(m)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'].replace('|', '/'), j['property']))
s = open(d + '/DESIGN.md').read()
b, e = '<!-- planted -->\n', '<!-- /planted -->'
if 'SEEDTABLE' in s: s = s.replace('SEEDTABLE', b + e)
i, k = s.index(b) + len(b), s.index(e)
open(d + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[k:])
