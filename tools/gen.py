#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, props
with open('/verif/properties.jsonl', 'w') as f:
    for p in props.P:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'hooks': {'guard': 'verif', 'enable': 'no hooks are committed in /repo: the checks build the working tree as it is (the schedule checks instrument a scratch copy of it)', 'source_commits': []},
    'checks': [], 'not_applicable': [], 'notes': props.NOTES,
}
for p in props.P:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': p.get('quick', 'bash /verif/run.sh %s' % p['id']),
        'thorough_cmd': p.get('thorough', 'VERIF_TIER=thorough bash /verif/run.sh %s' % p['id']),
        'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note'],
    })
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
