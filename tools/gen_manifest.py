#!/usr/bin/env python3
'''MANIFEST.json from properties.jsonl, lib/domains.json and the notes below'''
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
dom = json.load(open(R + '/lib/domains.json'))
info = json.load(open(R + '/lib/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in dom:
        c = info['claims'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i,
                       'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
                       'technique': c['technique'], 'level': c.get('level', 'model_checking'),
                       'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': info['not_applicable'].get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; the real code in /repo is driven under Jython '
              '(drivers/, harness/) and every recorded behaviour is decided by TLC against the specification. '
              'No hooks in /repo: everything is observed at its interfaces.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
