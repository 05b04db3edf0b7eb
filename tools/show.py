#!/usr/bin/env python3
import json,sys
d=json.load(open('/verif/replay/%s.json'%sys.argv[1]))
n=0
seen={}
def sh(o): return json.dumps(o)[:700]
for v in d['violations']:
    if seen.get(v['clause'],0)>=(int(sys.argv[2]) if len(sys.argv)>2 else 1): continue
    seen[v['clause']]=seen.get(v['clause'],0)+1
    print('==',v['clause'],v['scenario'],v['line'])
    for r in v.get('behaviour',[v.get('record')])[-int(sys.argv[3]) if len(sys.argv)>3 else -8:]:
        print('   ',sh(r))
    if 'tlc' in v: print(v['tlc'])
