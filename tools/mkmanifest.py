#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ('symbolic execution of the real code of /repo, translated from its '
        'current source at every run; each assertion is decided by z3 for '
        'every value within the bounds of harness/%s.py (recorded in the '
        'evidence); counterexamples are replayed on the real code')
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/%s.py' % (V, i)):
        checks.append(dict(
            property=i,
            quick_cmd='python3-vt vf/check.py %s quick' % i,
            thorough_cmd='python3-vt vf/check.py %s thorough' % i,
            technique='bounded symbolic execution of the real code with an '
                      'SMT solver (z3)',
            level='model_checking', level_note=NOTE % i))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'the harness of this property is not built')))
m = dict(version=1, setup_cmd='python3-vt vf/setup.py', checks=checks,
         not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
