#!/usr/bin/env python3
# DESIGN.md from DESIGN.in.md, known_findings.json and seeded/
import json, os, glob
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(d + '/DESIGN.in.md').read()
k = json.load(open(d + '/known_findings.json'))['findings']
t = t.replace('@@KNOWN@@', '\n'.join(f"- {x['property']} `{x['entry']}`: {x['what']}" for x in k if x['status'] == 'known'))
t = t.replace('@@FIXED@@', '\n'.join('- ' + x['what'] for x in k if x['status'] == 'fixed'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
c = json.load(open(d + '/seeded_caught.json')) if os.path.exists(d + '/seeded_caught.json') else {}
for s in sorted(glob.glob(d + '/seeded/*/meta.json')):
    m = json.load(open(s)); i = s.split('/')[-2]; rows.append(f"| {i} | {m['property']} | {m['needs']} | {c.get(i, m['property'])} |")
t = t.replace('@@SEEDS@@', '\n'.join(rows))
open(d + '/DESIGN.md', 'w').write(t)
