#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from this list."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CHECKS = []; NA = []
TECH = 'contract-based deductive verification (CBMC: contracts on the real functions, callers against callee contracts)'
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, na=None, tech=TECH, level='proof'):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
        why_tests_cant=why, anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if na: NA.append(dict(property=id, reason=na))
    else: CHECKS.append(dict(property=id, quick_cmd='python3 check.py ' + id, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + id,
        evidence_file='evidence/%s.json' % id, technique=tech, level=level, level_note=note))
exec(open(os.path.join(HERE, 'lib', 'proplist.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
json.dump(dict(version=1, setup_cmd='true', checks=CHECKS, not_applicable=NA,
    notes='python3 check.py <id>; see DESIGN.md. No hooks in /repo: the code is extracted mechanically on every run.'),
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
