#!/usr/bin/env python3
"""Writes the "fixed" entries of KNOWN_FINDINGS.json from the fix: commits in /repo; PROP maps commit -> property."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PROP = json.load(open(os.path.join(V, 'tools', 'fixprops.json')))
k = json.load(open(os.path.join(V, 'KNOWN_FINDINGS.json')))
k['fixed'] = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '): k['fixed'].append('fixed: property=%s %s %s' % (PROP.get(h, '?'), h, s[5:]))
bad = [x for x in k['fixed'] if 'property=?' in x]
if bad: print('unmapped:', *bad, sep='\n')
json.dump(k, open(os.path.join(V, 'KNOWN_FINDINGS.json'), 'w'), indent=1)
