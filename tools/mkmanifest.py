#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', 'runtime monitoring: oracle over randomised executions under ASan/UBSan'),
                       'level': 'exploration', 'level_note': c.get('note', c['rule'])})
    else:
        na.append({'property': i, 'reason': 'no check registered yet'})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: monitors attach through public interfaces (channels, streams, the PRG_NONCE build parameter), '
              'link-time wrapping of system calls and sanitizer builds. Commits in /repo are fixes only (known_findings.txt).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
