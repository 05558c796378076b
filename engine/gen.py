"""write properties.jsonl and MANIFEST.json from meta.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import meta
K = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
with open(V + '/properties.jsonl', 'w') as f:
    for p in meta.P.values():
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in K}) + '\n')
ch = []
for p in meta.P.values():
    if p['id'] in meta.NA: continue
    ch.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': ch, 'not_applicable': [{'property': k, 'reason': v} for k, v in meta.NA.items()],
     'notes': 'No hooks in /repo: contracts are spec harnesses in /verif/spec compiled together with the current sources (see DESIGN.md).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
