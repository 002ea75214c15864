#!/usr/bin/env python3
"""Assembles DESIGN.md: fixed text + one section per property from properties.jsonl, proofs/*.c and tools/design_notes.json."""
import os, re, json, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V); import run
notes = json.load(open(os.path.join(V, 'tools', 'design_notes.json')))
hs = run.all_harness()
o = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '\n## 2. The properties and their proofs\n']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    o.append('\n### %s %s\n\n%s\n\n' % (i, p['title'], notes.get(i, '').strip()))
    o.append('| proof | level | functions under contract | what is specified | bound |\n|---|---|---|---|---|\n')
    for h in hs:
        if i not in h.props: continue
        o.append('| %s%s | %s | %s | %s | %s |\n' % (h.name, ' (%d cases)' % len(h.parts) if h.parts else '', h.level, ', '.join(h.functions), h.desc.replace('|', '\\|'), (h.bound or 'none').replace('|', '\\|')))
na = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
o.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
o.append('\n## 6. Planted changes and what catches them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n')
c = json.load(open(os.path.join(V, 'tools', 'caught.json')))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    o.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '\\|'), c.get(d, '(not yet run)')))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(o))
