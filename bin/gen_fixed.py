#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo and the map below (subject prefix -> property)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(V, 'lib', 'fix_map.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'bd345b0..HEAD'], text=True).splitlines()
p = os.path.join(V, 'known_findings.json')
k = json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])
k['fixed'] = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    m = [v for a, v in M.items() if s.startswith(a)]
    assert len(m) == 1, (s, m)
    k['fixed'].append('fixed: property=%s %s %s' % (m[0], h, s))
json.dump(k, open(p, 'w'), indent=1); open(p, 'a').write('\n')
