#!/usr/bin/env python3
"""mkdemo.py ID...  makes seeded/ID/{main.rs,demo.sh,cases.txt,*.jpg} from the replay of the check which caught it
(or from cases given below), then verifies: exit 0 on the unpatched tree, nonzero with the patch.
Scratch copy: /tmp/plant/repo (made with cp -a)."""
import sys,os,re,shutil,subprocess,json,glob
V='/verif'; W='/tmp/plant/demo-repo'
def sh(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
LIM='mw=65535 mh=65535 ms=1000'
def generic(files,ops):
    out=[]
    for f in files:
        for cs in ('RGB','RGBA','YCbCr','GRAY'):
            for u in (1,0):
                for op in ops:
                    out.append(f'{op} {f} cs={cs} unsafe={u} threads=2 {LIM}')
        out.append(f'hdr {f} cs=RGB {LIM}')
        out.append(f'file {f} cs=RGB {LIM}')
        out.append(f'dec {f} cs=RGB strict=1 {LIM}')
        out.append(f'dec {f}')
    return out
exec(open(V+'/tools/plant/special.py').read())
def main(ids):
    if not os.path.exists(W): sh('cp','-a','/repo',W)
    sh('git','-C',W,'checkout','--','.')
    for i in ids:
        d=f'{V}/seeded/{i}'
        meta=json.load(open(d+'/meta.json')); prop=meta['property']
        sp=SPECIAL.get(i,{})
        for f in os.listdir(d):
            if f not in('patch.diff','meta.json') and f not in sp.get('keep',[]): os.remove(d+'/'+f)
        files=[]
        log=f'/tmp/plant/{i}.{prop}.log'
        if 'make' in sp:
            for n,m in enumerate(sp['make']):
                f=f'made{n}.jpg'; files.append(f)
                assert sh(V+'/target/driver/release/vdriver','make',*m.split(),d+'/'+f).returncode==0
        elif 'files' in sp: files=sp['files']
        elif os.path.exists(log):
            m=re.search(r'replay=(\S+)',open(log).read())
            if m:
                for f in sorted(glob.glob(os.path.dirname(m.group(1))+'/input*.jpg')):
                    shutil.copy(f,d); files.append(os.path.basename(f))
        if 'rename' in sp:
            os.rename(d+'/'+files[0],d+'/'+sp['rename']); files=[sp['rename']]
        shutil.copy(V+'/tools/plant/main.rs',d); shutil.copy(V+'/tools/plant/demo.sh',d)
        for k,v in sp.get('put',{}).items(): open(d+'/'+k,'w').write(v)
        lines=sp['cases'](files) if 'cases' in sp else generic(files,['dec'])
        open(d+'/cases.txt','w').write('\n'.join(lines)+'\n')
        r=sh('bash',d+'/demo.sh',cwd='/repo',env=dict(os.environ,DEMO_PRINT='print'))
        if r.returncode: print(i,'PRINT FAILED',r.stdout[-500:],r.stderr[-500:]); continue
        open(d+'/cases.txt','w').write(r.stdout)
        for _ in range(sp.get('again',1)):
            a=sh('bash',d+'/demo.sh',cwd='/repo')
            if a.returncode: break
        p=sh('git','-C',W,'apply',d+'/patch.diff')
        b=sh('bash',d+'/demo.sh',cwd=W)
        sh('git','-C',W,'checkout','--','.')
        print(i,'clean',a.returncode,'patched',b.returncode,'OK' if a.returncode==0 and b.returncode!=0 and p.returncode==0 else 'BAD '+a.stdout[-300:]+p.stderr,'cases',r.stdout.count('\n'),flush=True)
main(sys.argv[1:])
