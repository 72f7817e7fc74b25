"""MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = '/verif'
T = json.load(open(V + '/tools/claims.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 engine/extract.py',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the analysis reads the unmodified sources. Every check extracts the MIR of the current tree.'}
for p in props:
    i = p['id']
    c = T['claimed'].get(i)
    if c:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'technique': c[0], 'level': c[1], 'level_note': c[2]})
    else:
        m['not_applicable'].append({'property': i, 'reason': T['na'].get(i, 'check under construction')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
