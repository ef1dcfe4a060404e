#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the property tables (between the markers)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib')); sys.dont_write_bytecode = True
import specs
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
A, B = '<!-- properties -->\n', '<!-- /properties -->\n'
if A not in s: s += A + B
o = ''
for i in sorted(specs.ORDER):
    q = specs.PROPS[i]
    o += '### %s %s\n\n%s\n\n' % (i, q['title'], q.get('how', q['rule'][0].upper() + q['rule'][1:] + '.'))
    o += '* Quantifier: %s. Tests cannot: %s\n' % (q['quant'], q['why'][0].lower() + q['why'][1:])
    o += '* Groups: %s\n' % ', '.join('`%s/%s` %s cases x %s' % (g['h'], g['g'], g['n'], '+'.join(g['variants'])) for g in q['groups'])
    o += '* Must be observed: %s\n' % ', '.join(q['require'])
    if q['assumptions'][1:]: o += '* Assumes: %s\n' % '; '.join(q['assumptions'][1:])
    o += '\n'
a, b = s.index(A) + len(A), s.index(B)
s = s[:a] + o + s[b:]
# the planted bugs, from their meta.json (CAUGHT holds what was seen when they were run)
import json
t = ''
d = os.path.join(V, 'seeded')
for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    t += '* `%s` (%s): %s Needs: %s Caught by: %s.\n' % (i, m['property'], m['what_it_breaks'].rstrip('.') + '.', m['needs'].rstrip('.') + '.', m.get('caught_by', m['property']))
A, B = '<!-- seeded -->\n', '<!-- /seeded -->\n'
a, b = s.index(A) + len(A), s.index(B)
open(p, 'w').write(s[:a] + t + s[b:])
