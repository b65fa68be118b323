#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R)
from checks import CHECKS
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
na = [dict(property=i, reason=NA.get(i, 'Not built yet.')) for i in ids if i not in CHECKS]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=c['technique'], level=c['level'],
                           level_note=c['level_note']))
m = dict(version=1, setup_cmd='cd harness && CARGO_TARGET_DIR=target/release cargo build --release --offline --lib',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is observed through the public API, instrumented element types, hashers, '
               'allocators, serializers and pointer kinds, and sanitizers. check.py runs a check; checks.py lists their '
               'parts; harness/ holds the programs, clients/ and clients.py those of C25; known_findings.txt lists the defects found. Commands are run in /verif.')
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
