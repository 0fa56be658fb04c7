#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and lib/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
ps = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
NOT = ('The code this speaks about (src/) belongs to no compiled target: the workspace has only crates/linear and crates/nonlinear as members, src/ names modules that no longer exist '
       'and crates (ndarray, failure, profiler) that are not available, and cannot be type-checked or run. Contracts on it would be about text without a meaning: nothing here resolves its types, '
       'traits or operators, no proof could be replayed against running code, and no change to it can be seen in behaviour.')
checks, na = [], []
for p in ps:
    i = p['id']
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': 'contract-based deductive verification (Verus) of functions extracted from the current source: ' + ', '.join(q['functions']),
                       'level': 'proof', 'level_note': q['note'] + ' Assumes: ' + ' '.join(q['assumptions'])})
    else:
        na.append({'property': i, 'reason': NOT if i.startswith('I') else 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
