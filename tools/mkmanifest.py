#!/usr/bin/env python3
"""Generates MANIFEST.json from registry.py and properties.jsonl (run from /verif)."""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, '.')
from registry import PROPS
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
SEQ = 'TLA+ specification model-checked with TLC; histories recorded from the real code validated step by step against the specification by TLC'
CON = 'TLA+ specification model-checked with TLC; the real code run under a deterministic scheduler that controls every shared-memory access, its histories validated against the specification by TLC'
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
            technique=c.get('technique', CON if any(p.get('flavour') == 'sched' for p in c['parts']) else SEQ), level=c.get('level', 'model_checking'),
            level_note=c.get('note', 'The specification is checked exhaustively within its configured bounds; the implementation is checked on every recorded history (seeded, many configurations), each event of which TLC must accept as a step of the specification. Trusted: the driver\'s logging of calls/results, the compiler, TLC. Assumes: ' + '; '.join(c['assumptions']))))
    else: na.append(dict(property=i, reason=c_na.get(i, 'no check built yet') if (c_na := {}) is not None else ''))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
   notes='TLA+ with TLC throughout; see DESIGN.md. No hooks in /repo: the drivers use only public API and compile-time instrumentation.'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
