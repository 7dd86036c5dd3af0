#!/usr/bin/env python3
# Summary of a replay result: divergences and coverage.
import json,sys,collections
r=json.load(open(sys.argv[1]))
cov=collections.Counter(); n=0; d=collections.Counter(); ex={}
for f in r:
    n+=f['steps']
    for k,v in f['cover'].items(): cov[k]+=v
    for x in f['divergences']:
        fs=','.join(sorted(set('/'.join(p if not p.lstrip('-').isdigit() and '/' not in p else '*' for p in y[0]) for y in x['fields'])))[:160]
        key=(x['tag'],x['sub'],x['why'],x['want'],x['ok'],x['err'][:90] if not x['ok'] else '',fs, 'EV' if x['events'] else '')
        d[key]+=1; ex.setdefault(key,(f['file'].split('/')[-1],x['step']))
print(n,'steps')
for k,v in d.most_common(60): print(v,k,ex[k])
if len(sys.argv)>2:
    for k,v in sorted(cov.items()): print(v,k)
