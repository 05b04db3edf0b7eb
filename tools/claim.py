#!/usr/bin/env python3
'''claim.py PID DOMAIN TECHNIQUE NOTE [LEVEL]: register a check and rewrite MANIFEST.json'''
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, dom, tech, note = sys.argv[1:5]
p = R + '/lib/domains.json'
d = json.load(open(p)); d[pid] = dom.split(','); json.dump(dict(sorted(d.items())), open(p, 'w'), indent=1)
p = R + '/lib/claims.json'
c = json.load(open(p))
c['claims'][pid] = {'technique': tech, 'note': note}
if len(sys.argv) > 5: c['claims'][pid]['level'] = sys.argv[5]
c['not_applicable'].pop(pid, None)
json.dump(c, open(p, 'w'), indent=1)
subprocess.check_call([sys.executable, R + '/tools/gen_manifest.py'])
