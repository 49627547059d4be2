#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props
ids = [l.split()[0] for l in open(f'{root}/checks.txt') if l.strip()]
with open(f'{root}/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        for x in p['anchors']['files']:
            assert os.path.exists('/repo/' + x), (p['id'], x)
        f.write(json.dumps({k: p[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')}) + '\n')
checks = [dict(property=p['id'], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
    evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level=p['level'], level_note=p['note']) for p in props.P if p['id'] in ids]
assert set(ids) <= {p['id'] for p in props.P}
na = props.NOT_APPLICABLE
missing = {p['id'] for p in props.P} - set(ids) - {n['property'] for n in na}
assert not missing, missing
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Checks build harness crates in /verif/harness with path dependencies on /repo (and, for crates that need it, a generated shadow workspace that links to /repo's sources); see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(props.P), 'properties')
