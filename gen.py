#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from registry.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import registry
from registry import PROPS, NA
for p in ['sign', 'vss', 'dkg', 'poly', 'crypto', 'group', 'cross', 'na']:
    if os.path.exists(os.path.join(V, 'props_%s.py' % p)):
        __import__('props_' + p)
allp = dict(PROPS); allp.update(NA)
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for id in sorted(allp):
        m = allp[id]
        assert len(m['title']) <= 80, (id, len(m['title']))
        n = m['statement'].replace('e.g.', '').count('. ') + 1
        if n > 3: print(id, 'has', n, 'sentences')
        a = {'files': m['files'], 'mechanism': [{'name': x, 'where': y} for x, y in m['mech']]}
        if m['state']:
            a['state'] = [{'name': x, 'meaning': y} for x, y in m['state']]
        if m['observe']:
            a['observe_at'] = list(m['observe'])
        fh.write(json.dumps({'id': id, 'title': m['title'], 'statement': m['statement'], 'quantifier': {'over': m['over'], 'text': m['qtext']}, 'why_tests_cant': m['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': './extract.sh build',
       'checks': [{'property': id, 'quick_cmd': './check.py ' + id, 'thorough_cmd': './check.py %s --thorough' % id, 'technique': PROPS[id]['technique'],
                   'level': PROPS[id]['level'], 'level_note': PROPS[id]['note'].strip()} for id in sorted(PROPS)],
       'not_applicable': [{'property': id, 'reason': NA[id]['reason']} for id in sorted(NA)],
       'notes': 'No hooks: the checks compile the unmodified library crate with a rustc driver (driver/) and decide every property from its MIR (engine/). DESIGN.md describes the rules; known-findings.txt lists repaired and recorded defects.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import subprocess
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(PROPS), 'claimed', len(NA), 'n/a')
