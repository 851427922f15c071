#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from rv/props.py."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rv.props import P, NA  # noqa: E402

rows, checks = [], []
for pid in sorted(P):
    p = P[pid]
    if not os.path.exists(f'{V}/rv/checks/{pid.lower()}.py') \
            and pid not in NA:
        print('no check yet:', pid)
        continue
    rows.append({k: v for k, v in p.items() if k[0] != '_'})
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, (pid, p['statement'])
    for f in p['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
    if pid in NA:
        continue
    cmd = f'/opt/venv/bin/python check.py {pid} --tier '
    checks.append(dict(
        property=pid, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
        technique=p['_technique'], level='exploration',
        level_note=p['_note']))
with open(f'{V}/properties.jsonl', 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
json.dump(dict(
    version=1,
    setup_cmd='/opt/venv/bin/python tools/setup_check.py',
    hooks=dict(guard='none', enable='no hooks: the monitors attach from '
               'outside (forward hooks, wrapped methods, subclasses)',
               source_commits=[]),
    checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    notes='Runtime monitors driving the real code in-process; see DESIGN.md.'),
    open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(rows), 'properties', len(checks), 'checks')
