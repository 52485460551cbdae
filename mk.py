#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/*.py-style records in catalogue.py"""
import json, os
from catalogue import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.dont_write_bytecode=True; sys.path.insert(0,\'sa\'); import lib; print(lib.irdump_bin())"',
     'checks': [], 'not_applicable': []}
for p in PROPS:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                            'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
