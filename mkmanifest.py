#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import checks  # noqa: E402

NOT = {}

out = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
       'notes': 'See DESIGN.md. No hooks in /repo: instrumentation is added at build time with go build -overlay.'}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid in checks.CHECKS:
        fn, level, rule = checks.CHECKS[pid]
        out['checks'].append({
            'property': pid,
            'quick_cmd': 'python3 run.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
            'technique': 'TLA+ specification; TLC model checking and validation of traces of the real code',
            'level': level,
            'level_note': rule})
    else:
        out['not_applicable'].append({'property': pid, 'reason': NOT.get(pid, 'the check is still being built')})
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks,', len(out['not_applicable']), 'not claimed')
