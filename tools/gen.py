#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import catalog
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in catalog.PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the sources of /repo as they are', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt checks/run.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt checks/run.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p.get('level', 'proof'), 'level_note': p['note']} for p in catalog.PROPS if not p.get('na')],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in catalog.PROPS if p.get('na')],
     'notes': catalog.NOTES}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(catalog.PROPS), 'properties,', len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
