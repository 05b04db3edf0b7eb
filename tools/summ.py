#!/usr/bin/env python3
'''summ.py PID KEY...  count the violations of the last run by record fields'''
import json,sys
from collections import Counter
d=json.load(open('/verif/replay/%s.json'%sys.argv[1]))
c=Counter()
for b in d['violations']:
    r=b.get('record',{}); c[(b['clause'],)+tuple(str(r.get(k)) for k in sys.argv[2:])]+=1
for k,n in c.most_common(40): print(n,k)
print(d['total'])
