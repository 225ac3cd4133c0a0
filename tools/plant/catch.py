import sys,json,os,re,time; sys.path.insert(0,'/verif/tools/plant'); os.makedirs('/tmp/sd',exist_ok=True)
from lib import *
ids=sys.argv[1:] or sorted(os.listdir(SEED))
for i in ids:
    m=json.load(open(f'{SEED}/{i}/meta.json')); prop=m['property']
    w='/tmp/sd/k'; fresh(w)
    a=run(f'git apply {SEED}/{i}/patch.diff',cwd=w)
    if a.returncode: print(i,'DOES NOT APPLY',a.stderr); continue
    t=time.time()
    r=run(f'VERIF_REPO={w} VERIF_SEED=1 timeout 890 python3 check.py {prop} quick',cwd='/verif')
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{i:36} {prop} rc={r.returncode} {"CAUGHT" if r.returncode==1 and v else "MISSED"} {time.time()-t:.0f}s',flush=True)
    open(f'/tmp/sd/{i}.log','w').write(r.stdout+r.stderr)
    if r.returncode not in(0,1): print(r.stdout[-1500:],r.stderr[-800:])
