#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, LEVEL_NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS + NOT_APPLICABLE:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 --version',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'], 'level': 'other',
                 'level_note': p.get('level_note', LEVEL_NOTE)} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
     'notes': 'Pure static analysis: every check parses the current source under /repo and interprets it abstractly; '
              'no code of /repo is imported or executed. No hooks.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(PROPS), 'claimed', len(NOT_APPLICABLE), 'not applicable')
