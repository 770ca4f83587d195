#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, sys
sys.path.insert(0, 'sim')
import engine
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
 'N01': 'a pure function of one byte string: no thread, clock, I/O, randomness or crash takes part, so there is nothing for a simulator to schedule or fault',
 'N02': 'parsing and matching of one string: a pure function, nothing to schedule or fault',
 'N03': 'arithmetic on one pixel buffer: a pure function, nothing to schedule or fault',
 'N04': 'arithmetic on one float: a pure function, nothing to schedule or fault',
 'N05': 'a pure function of one tag value: nothing to schedule or fault',
 'N06': 'arithmetic on one vertex: a pure function, nothing to schedule or fault',
 'N07': 'a pure function of one tag value: nothing to schedule or fault',
 'N08': 'static data compiled into the program: no execution, schedule or fault can change it',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'sim', 'props', i.lower() + '.py')):
        m = engine.load_prop(i)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': getattr(m, 'technique', 'deterministic simulation of the real invader process: seeded search over schedules and injected faults, with a reference model over the recorded history'),
                       'level': getattr(m, 'level', 'exploration'),
                       'level_note': m.rule + '. Assumes: ' + ('; '.join(m.assumptions) or 'nothing beyond the simulated seams') +
                       '. Sampled, not exhaustive. Trusts libsim (thread scheduler, clocks, randomness, file faults at the libc boundary) and the Python tag codec where contents are judged.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are the libc boundary (LD_PRELOAD) and compiler-inserted edge callbacks, both applied from outside; see DESIGN.md. Known and fixed defects: known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
