#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property tables in lib/."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib')); sys.dont_write_bytecode = True
import specs
from specs import PROPS, ORDER
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i in sorted(ORDER):
        p = PROPS[i]
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='python3 bin/check.py --build-all',
         checks=[dict(property=i, quick_cmd='python3 bin/check.py %s' % i, thorough_cmd='python3 bin/check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                      technique=PROPS[i]['technique'], level=PROPS[i]['level'], level_note=PROPS[i]['note']) for i in sorted(ORDER)],
         not_applicable=getattr(specs, 'NOT_APPLICABLE', []),
         notes='No hooks in /repo: the monitors observe the public interface and, for file I/O, interposed system calls. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
