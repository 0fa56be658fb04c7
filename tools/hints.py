#!/usr/bin/env python3
"""writes specs/hints.json: the candidate invariants each proof drops on the current tree (a starting point for later runs)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import core, props
core.build_vx()
out = {}
for pid in sorted(props.PROPS):
    work = os.path.join(core.WORK, 'hints')
    os.makedirs(work, exist_ok=True)
    c = props.PROPS[pid]['load'](work)
    v = core.houdini(props.PROPS[pid]['build'](c), os.path.join(work, 'x.rs'))
    if v.dropped_set:
        out[pid] = sorted([list(d) for d in v.dropped_set])
    print(pid, len(v.dropped_set), len(v.failures))
json.dump(out, open(os.path.join(V, 'specs', 'hints.json'), 'w'), indent=0)
