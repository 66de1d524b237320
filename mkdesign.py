#!/usr/bin/env python3
"""Fills the tables of DESIGN.md: prints nothing, rewrites DESIGN.md from DESIGN.in.md, properties.jsonl and seeded/."""
import json, os, runpy
H = os.path.dirname(os.path.abspath(__file__))
m = runpy.run_path(os.path.join(H, 'meta.py'))
cf = os.path.join(H, 'costs.json')
costs = json.load(open(cf)) if os.path.exists(cf) else {}
for p in m['P']:
    e = os.path.join(H, 'evidence', p['id'] + '.json')
    if os.path.exists(e):
        d = json.load(open(e))
        if d['tier'] == 'quick':
            costs[p['id']] = f"{d['wall_s']:.0f} s (quick)"
json.dump(costs, open(cf, 'w'), indent=0, sort_keys=True)
claimed = set(open(os.path.join(H, 'claimed.txt')).read().split())
t = []
for p in m['P']:
    t.append(f"### {p['id']}: {p['title']}\n\n{p['technique']}\n\n*Over*: {p['quant']} *Bounds*: {p['note']}\n"
             f"*Beyond the tests*: {p['why']}\n*Cost*: {costs.get(p['id'], '?')}.\n"
             + ("" if p['id'] in claimed else "*Not yet claimed.*\n"))
s = open(os.path.join(H, 'DESIGN.in.md')).read().replace('PROPERTIES_TABLE', '\n'.join(t))
r = ['| bug | property | needs | caught |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    j = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    r.append(f"| {d} | {j['property']} | {j['needs']} | {j.get('caught', 'yes')} |")
s = s.replace('SEEDED_TABLE', '\n'.join(r))
open(os.path.join(H, 'DESIGN.md'), 'w').write(s)
