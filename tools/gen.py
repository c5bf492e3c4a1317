#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the registry (run by hand)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
import registry

P = 'atooms/postprocessing/'


def where(w):
    return w if w.startswith(('bin/', 'setup')) else P + w


lines, checks, na = [], [], []
for p in props.PROPS:
    claimed = p['id'] in registry.PROPERTIES
    if not claimed and 'na' not in p:
        continue
    files = sorted({where(w.split(':')[0]) for _, w in p['mechanism']})
    rec = {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['forall']},
        'why_tests_cant': p['tests'],
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': where(w)} for n, w in p['mechanism']],
                    'observe_at': p.get('observe', []), 'hook_needed': None},
    }
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps(rec))
    if claimed:
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
            'technique': p.get('technique', props.GVN), 'level': 'other',
            'level_note': p.get('note', props.NOTE)})
    else:
        na.append({'property': p['id'], 'reason': p['na']})
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import registry"', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read the sources of /repo on every run and execute none of them.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
