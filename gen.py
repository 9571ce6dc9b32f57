#!/usr/bin/env python3
"""Rewrites properties.jsonl and MANIFEST.json from props.py."""
import json, subprocess
from props import PROPS
import props
with open('properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': p['state'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --build asan plain tsan',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
    } for p in PROPS if p['cases']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if not p['cases']],
    'notes': 'No hooks are needed in the library: the harness links the library with a mock Vulkan driver given through the public function loader. checks are derived from props.py (python3 gen.py).',
}
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
