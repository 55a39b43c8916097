#!/usr/bin/env python3
"""Write MANIFEST.json: claims every property that has a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C22': 'exhaustive exploration of call histories, environments and preemption-bounded thread interleavings of the real code',
 'C23': 'exhaustive exploration of bounded input sequences of the real program against a reference stack machine',
 'C24': 'exhaustive bounded enumeration of executions of the real code under sanitizer instrumentation',
 'C21': 'exhaustive bounded enumeration of executions of the real code, pairs of calls compared with each other',
 'C25': 'exhaustive bounded enumeration of executions of the real code, neighbouring calls compared with each other',
}
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in ('C22', 'C23', 'C24') and not os.path.exists(os.path.join(V, 'mc', i + '.sh')):
        na.append({'property': i, 'reason': 'check under construction'})
        continue
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i, 'level': 'model_checking',
        'technique': TECH.get(i, 'exhaustive bounded enumeration of executions of the real code against a reference model'),
        'level_note': NOTE.get(i, NOTE['*'])})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
  'notes': 'see DESIGN.md; no hooks in /repo; known_findings.txt lists recorded defects and fixes'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
