#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the proofs' metadata."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
import run
hs = run.all_harness()
checks, na = [], []
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    mine = [h for h in hs if i in h.props]
    if i in NA or not mine:
        na.append(dict(property=i, reason=NA.get(i, 'no proof built yet'))); continue
    b = [h for h in mine if h.level != 'proof']; f = [h for h in mine if h.level == 'proof']
    fn = sorted({x for h in mine for x in h.functions})
    note = 'Obligations over the real functions %s, generated from /repo on every run. ' % ', '.join(fn)
    note += ('Proved for all inputs (loops completely unwound, no bound): %s. ' % ', '.join(h.name for h in f)) if f else ''
    note += ('Bounded stand-ins, not counted as proved: %s. ' % '; '.join('%s (%s)' % (h.name, h.bound) for h in b)) if b else ''
    ass = sorted({a for h in mine for a in h.assume})
    note += 'Trusted: cbmc, its libc models, vf/libc_model.c' + (', ' + '; '.join(ass) if ass else '') + '.'
    checks.append(dict(property=i, quick_cmd='python3 /verif/run.py check %s --tier quick' % i, thorough_cmd='python3 /verif/run.py check %s --tier thorough' % i,
                       technique='CBMC code contracts on the real C code, discharged by SAT' + (' (bounded stand-ins for part of the functions)' if b else ''),
                       level='proof' if not b else 'model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3 /verif/run.py setup', checks=checks, not_applicable=na)
hk = os.path.join(V, 'tools', 'hooks.json')
if os.path.exists(hk): m['hooks'] = json.load(open(hk))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
