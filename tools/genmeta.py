#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import P
rows, checks, na = [], [], []
for p in P:
    assert len(p['title']) <= 80, p['id']
    a = {'files': p['files'], 'mechanism': p['mech']}
    if p['state']:
        a['state'] = p['state']
    rows.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a})
    if p['check']:
        c = p['check']
        checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                       'thorough_cmd': './check.sh %s --thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        na.append({'property': p['id'], 'reason': p['reason'] or 'no check built yet'})
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for r in rows:
        fh.write(json.dumps(r) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks are static: they parse /repo/src with clang front ends built from /verif/dumper and '
               'analyse the resolved program; nothing of /repo is executed. No hooks are used.'}, fh, indent=1)
    fh.write('\n')
import jsonschema
P_ = json.load(open('/root/.vp/PROPERTIES.schema.json')); M_ = json.load(open('/root/.vp/MANIFEST.schema.json'))
for r in rows:
    jsonschema.validate(r, P_)
jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), M_)
print(len(rows), 'properties', len(checks), 'checks', len(na), 'not applicable')
