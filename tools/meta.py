"""Writes properties.jsonl and MANIFEST.json from the records in tools/records.py.

usage: python3 tools/meta.py
"""
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
import sys
sys.path.insert(0, here)
from records import RECORDS, NOT_APPLICABLE


def split(where):
    # 'name @ file' -> {'name','where'}
    name, where = where.split(' @ ')
    return {'name': name.strip(), 'where': where.strip()}


with open(os.path.join(root, 'properties.jsonl'), 'w') as fp:
    for r in RECORDS:
        assert len(r['title']) <= 80, r['id']
        anchors = {
            'files': r['files'],
            'mechanism': [split(m) for m in r['mechanism']],
            'observe_at': r.get('observe', []),
            'hook_needed': None,
        }
        if r.get('state'):
            anchors['state'] = r['state']
        fp.write(json.dumps({
            'id': r['id'],
            'title': r['title'],
            'statement': r['statement'],
            'quantifier': {'over': r['over'], 'text': r['quantifier']},
            'why_tests_cant': r['why'],
            'anchors': anchors,
        }, ensure_ascii=False) + '\n')

na = {r['property'] for r in NOT_APPLICABLE}
claimed = [
    r for r in RECORDS
    if r['id'] not in na
    and os.path.exists(os.path.join(root, 'mc', 'props', r['id'].lower() + '.py'))
]
missing = [
    {'property': r['id'], 'reason': 'no check yet'}
    for r in RECORDS if r not in claimed and r['id'] not in na
]
with open(os.path.join(root, 'MANIFEST.json'), 'w') as fp:
    json.dump({
        'version': 1,
        'setup_cmd': './check setup',
        'checks': [
            {
                'property': r['id'],
                'quick_cmd': f'./check {r["id"]} --quick',
                'thorough_cmd': f'./check {r["id"]} --thorough',
                'technique': r['technique'],
                'level': 'model_checking',
                'level_note': r['level_note'],
            }
            for r in claimed
        ],
        'not_applicable': NOT_APPLICABLE + missing,
        'notes': (
            'Explicit enumeration of bounded spaces on the real code, see DESIGN.md. '
            'No hooks: the checks observe the public interface only.'
        ),
    }, fp, indent=1, ensure_ascii=False)
    fp.write('\n')
print(len(claimed), 'claimed', len(missing), 'without a check')
