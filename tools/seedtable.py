#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/caught.json."""
import json, os, re, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
try: caught = json.load(open('tools/caught.json'))
except FileNotFoundError: caught = {}
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob('seeded/*/meta.json')):
    i = m.split('/')[1]; j = json.load(open(m))
    rows.append(f"| {i} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {caught.get(i, 'not run')} |")
d = open('DESIGN.md').read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
t = a + '\n' + '\n'.join(rows) + '\n' + b
d = d.replace('SEEDTABLE', t) if 'SEEDTABLE' in d else re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: t, d, flags=re.S)
open('DESIGN.md', 'w').write(d)
