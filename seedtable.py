#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, re
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[1], m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
s = open('DESIGN.md').read()
a = s.index('<!-- seeds -->')
b = s.index('<!-- end seeds -->')
s = s[:a] + '<!-- seeds -->\n| planted bug | property | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:]
open('DESIGN.md', 'w').write(s)
