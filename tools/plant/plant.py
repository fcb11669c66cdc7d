#!/usr/bin/env python3
"""plant.py ID...   (definitions in plants.py)
verify in a scratch copy: compiles, stable tests pass, writes seeded/ID/patch.diff + meta.json"""
import sys, os, subprocess, json, shutil
sys.path.insert(0, os.path.dirname(__file__))
from plants import PLANTS
V='/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for pid in sys.argv[1:]:
    P=PLANTS[pid]; d=f'/tmp/plant/{pid}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/plant', exist_ok=True)
    sh(f'cp -a /repo {d}')
    for f,old,new in P['edits']:
        s=open(f'{d}/{f}').read()
        n=s.count(old)
        k=P.get('occ')
        if k is None:
            assert n==1,(pid,f,n)
            s=s.replace(old,new)
        else:
            i=-1
            for _ in range(k): i=s.index(old,i+1)
            s=s[:i]+new+s[i+len(old):]
        open(f'{d}/{f}','w').write(s)
    out=f'{V}/seeded/{pid}'; os.makedirs(out,exist_ok=True)
    diff=sh(f'git -C {d} diff').stdout
    open(f'{out}/patch.diff','w').write(diff)
    json.dump({k:P[k] for k in('property','needs','what_it_breaks')},open(f'{out}/meta.json','w'),indent=1)
    # removed lines must be original
    base=sh('git -C /repo log --format=%H --reverse').stdout.split()[0]
    for f,old,_ in P['edits']:
        orig=sh(f'git -C /repo show {base}:{f}').stdout
        rem=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        print(pid,'original lines:',[l.strip() in orig for l in rem])
    ts=open('/opt/vp/test.sh').read().replace('cd /repo',f'cd {d}')
    open(f'/tmp/plant/{pid}.test.sh','w').write(ts)
    r=sh(f'bash /tmp/plant/{pid}.test.sh /tmp/plant/{pid}.json')
    b=json.load(open('/opt/vp/BASELINE.json')); exp=set(b.get('stable',b.get('passed',[])) if isinstance(b,dict) else b)
    try: got=set(json.load(open(f'/tmp/plant/{pid}.json'))['passed'])
    except Exception as e: got=set(); print(r.stdout[-3000:])
    print(pid,'tests missing:',sorted(exp-got)[:5], 'of',len(exp), flush=True)
    shutil.rmtree(d)
