#!/usr/bin/env python3
"""table.py LOG  rewrites DESIGN.md's table of planted changes from the output of run.sh"""
import sys,json,os,re
V='/verif'; rows={}
for l in open(sys.argv[1]):
    m=re.match(r'(c\d\d-\S+) (C\d\d) rc=(\d+)',l)
    if m: rows[m[1]]=m[3]
out=['| planted change | needs | what it breaks | own quick check |','|---|---|---|---|']
for i in sorted(os.listdir(V+'/seeded')):
    j=json.load(open(f'{V}/seeded/{i}/meta.json'))
    r=rows.get(i)
    out.append(f"| {i} | {j['needs']} | {j['what_it_breaks']} | {j['property']} {'catches' if r=='1' else 'misses' if r=='0' else 'not run'} |")
s=open(V+'/DESIGN.md').read(); a='<!-- plants -->\n'
s=s[:s.index(a)+len(a)]+'\n'.join(out)+'\n'
open(V+'/DESIGN.md','w').write(s)
