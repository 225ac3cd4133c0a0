import glob,collections
cov={}
def add(fn):
    for l in open(fn):
        if l.startswith('mode:'): continue
        k,n,c=l.rsplit(' ',2); cov[k]=max(cov.get(k,0),int(c)); 
for f in glob.glob('lib/*.out'): add(f)
import subprocess
subprocess.run('cd /repo && . /opt/vp/env.sh && go tool covdata textfmt -i=/tmp/cov/cli -o=/tmp/cov/cli.out',shell=True,check=True)
add('cli.out')
un=sorted(k for k,v in cov.items() if not v)
print(len(cov),len(un))
src={}
for k in un:
    f,r=k.split(':'); f=f.replace('github.com/sa6mwa/krypto431/','/repo/')
    a,b=r.split(','); 
    if f not in src:
        try: src[f]=open(f).read().split('\n')
        except OSError: continue
    l1=int(a.split('.')[0]); l2=int(b.split('.')[0])
    print(f[6:],l1,l2,' | '.join(x.strip() for x in src[f][l1-1:l2])[:150])
