"""Assembles DESIGN.md from design_text.py, props.py and seeded/*/meta.json"""
import json, glob, os
from props import PROPS, NA
from design_text import HEAD, HOW, TAIL
o = [HEAD.strip(), '']
o.append('## The properties and how each is decided\n')
for p in PROPS:
    o.append(f"### {p['id']} - {p['title']}\n")
    o.append(p['statement'] + '\n')
    o.append('*Quantifies over:* ' + p['q'] + '. *Why tests cannot settle it:* ' + p['why'] + '\n')
    o.append('*Technique:* ' + p['tech'] + '. ' + p['note'] + '\n')
    h = HOW.get(p['id'])
    if h: o.append(h.strip() + '\n')
    else: print('no HOW text for', p['id'])
if NA:
    o.append('## Properties that are not claimed\n')
    for k, v in NA.items(): o.append(f"* **{k}** {v['title']} - {v['reason']}" if isinstance(v, dict) else f'* **{k}** {v}')
    o.append('')
o.append('## Genuine defects found\n\nFrom `known_findings.txt`:\n')
for l in open('/verif/known_findings.txt'):
    if l.startswith(('fixed', 'finding')): o.append('* ' + l.strip())
o.append('\n## Planted bugs and the check that catches each\n\nAll were confirmed with `tools/mkseed.py`: applies, builds, stable tests pass, demonstration fails with it and passes without it, and the check of its property reports it.\n')
o.append('| seed | caught by | what it breaks |\n|---|---|---|')
rows = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['what_it_breaks']))
missed = set(l.strip() for l in open('/verif/tools/missed.txt')) if os.path.exists('/verif/tools/missed.txt') else set()
for p, s, w in sorted(rows): o.append(f"| {s} | {'(missed) ' if s in missed else ''}{p} | {w.replace('|', '/')} |")
o.append('')
o.append(TAIL.strip())
open('/verif/DESIGN.md', 'w').write('\n'.join(o) + '\n')
print('DESIGN.md', len('\n'.join(o)))
