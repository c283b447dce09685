#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_data import PROPS, NOT_APPLICABLE  # noqa


def main():
    checks, na = [], []
    with open(ROOT + '/properties.jsonl', 'w') as fp:
        for p in PROPS:
            p = dict(p)
            claim = p.pop('claim')
            fp.write(json.dumps(p) + '\n')
            if not os.path.exists('{}/sim/props/{}.py'.format(
                    ROOT, p['id'].lower())):
                na.append({'property': p['id'],
                           'reason': claim.get('na', 'no check built yet')})
                continue
            checks.append({
                'property': p['id'],
                'quick_cmd': 'bash check.sh {} --tier quick'.format(p['id']),
                'thorough_cmd': 'bash check.sh {} --tier thorough'.format(
                    p['id']),
                'evidence_file': 'evidence/{}.json'.format(p['id']),
                'technique': claim.get(
                    'technique', 'deterministic simulation with seeded fault '
                    'injection'),
                'level': claim['level'],
                'level_note': claim['note']})
        for p in NOT_APPLICABLE:
            p = dict(p)
            reason = p.pop('reason')
            fp.write(json.dumps(p) + '\n')
            na.append({'property': p['id'], 'reason': reason})
    with open(ROOT + '/MANIFEST.json', 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
                   'checks': checks, 'not_applicable': na}, fp, indent=1)
        fp.write('\n')


main()
