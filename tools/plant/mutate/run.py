"""run.py N SEED [WORKERS]: samples N mutants (mutants.go) of a copy of /repo, runs the
stable tests and the quick checks which reach the changed line (cov.py), and
appends the outcome to /tmp/mut/results.jsonl.  Everything that executes mutated code runs unprivileged.
run.py retest FILE: full-strength pass over the survivors listed in FILE (results.jsonl)."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
sys.path.insert(0, '/verif')
import check as C
cov=json.load(open('/tmp/mut/cov.json'))
size={}
for v in cov.values():
    for p in v: size[p]=size.get(p,0)+1
NOB=dict(user=65534,group=65534,extra_groups=[])
OUT='/tmp/mut/results.jsonl'
lock=threading.Lock()
FULL=sys.argv[1]=='retest'
SH=[0,1] if not FULL else list(range(8))
def sh(cmd,cwd,env,t=300,**k):
    try: return subprocess.run(cmd,cwd=cwd,env=env,timeout=t,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
    except subprocess.TimeoutExpired:
        class R: returncode=124; stdout=b'timeout'
        return R
def prep(w):
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.run(['cp','-a','/repo',w+'/repo'],check=True); shutil.rmtree(w+'/repo/.git')
    s=open('/verif/harness/go.mod').read()
    open(w+'/go.mod','w').write(re.sub(r'(replace github.com/sa6mwa/krypto431 => )\S+',lambda m:m.group(1)+w+'/repo',s))
    shutil.copy('/verif/harness/go.sum',w+'/go.sum')
def runcheck(w,pid,tl):
    d0=f'{w}/run'; shutil.rmtree(d0,ignore_errors=True)
    ps=[]
    for i in SH:
        d=f'{d0}/{i}'; os.makedirs(d+'/tmp')
        for x in (d0,d,d+'/tmp'): os.chown(x,65534,65534)
        e=C.goenv(); e.update(VERIF_STATS=d+'/stats.json',VERIF_TIER='quick',VERIF_SHARD=str(i),VERIF_SHARDS='8',VERIF_CLI=w+'/krypto431',VERIF_REPLAY_DIR=d,TMPDIR=d+'/tmp',HOME=d,VERIF_SEED='1',GOMAXPROCS='2',GOMEMLIMIT='2500MiB')
        ps.append((d,subprocess.Popen([w+'/checks.test','-test.run',f'^Test{pid}$','-test.timeout=800s',f'-rapid.seed={C.seed_for(1,pid,i)}','-rapid.shrinktime=1s'],cwd=d,env=e,stdout=open(d+'/log','w'),stderr=subprocess.STDOUT,start_new_session=True,**NOB)))
    end=time.time()+tl; res='ok'
    while True:
        st=[p.poll() for _,p in ps]
        if any(s not in (None,0) for s in st):
            d=[d for d,p in ps if p.poll() not in (None,0)][0]
            log=open(d+'/log',errors='replace').read()
            res='killed' if 'HARNESS ERROR' not in log and 'only generated' not in log else 'noanswer'
            break
        if all(s==0 for s in st): break
        if time.time()>end: res='timeout'; break
        time.sleep(.05)
    for _,p in ps:
        if p.poll() is None:
            try: os.killpg(p.pid,9)
            except ProcessLookupError: pass
            p.wait()
    return res
def one(w,m,cands):
    f=w+'/repo/'+m['file']; orig=open('/repo/'+m['file'],'rb').read()
    assert orig[m['off']:m['end']].decode()==m['old']
    new=orig[:m['off']]+m['new'].encode()+orig[m['end']:]
    open(f,'wb').write(new)
    env=C.goenv()
    try:
        r=sh(['go','build','-buildvcs=false','-mod=mod','-o',w+'/krypto431','./cmd/krypto431'],w+'/repo',env)
        if r.returncode: return dict(m,res='nobuild')
        if not m['file'].startswith('cmd'):
            for p,o in (('.','t1'),('./diana','t2')):
                r=sh(['go','test','-c','-vet=off','-mod=mod','-o',w+'/'+o,p],w+'/repo',env)
                r=sh([w+'/'+o,'-test.timeout=60s'],'/tmp',env,90,**NOB)
                if r.returncode: return dict(m,res='tests')
        r=sh(['go','test','-c','-vet=off','-mod=mod','-modfile='+w+'/go.mod','-o',w+'/checks.test','./checks'],'/verif/harness',env)
        if r.returncode: return dict(m,res='nobuild2')
        ran=[]
        for pid in cands:
            x=runcheck(w,pid,120 if not FULL else 400)
            ran.append((pid,x))
            if x!='ok': return dict(m,res=x,by=pid,ran=len(ran))
        return dict(m,res='SURVIVED',ran=len(ran),cands=cands)
    finally:
        open(f,'wb').write(orig)
def main():
    ms=[]
    if FULL:
        for l in open(sys.argv[2]):
            m=json.loads(l)
            if m['res']=='SURVIVED': ms.append(m)
        workers=1; out='/tmp/mut/retest.jsonl'
    else:
        al=[json.loads(l) for l in open('/tmp/mutants.jsonl')]
        done=set()
        if os.path.exists(OUT): done={(x['file'],x['off'],x['end'],x['new']) for x in map(json.loads,open(OUT))}
        al=[m for m in al if (m['file'],m['off'],m['end'],m['new']) not in done and f"{m['file']}:{m['line']}" in cov]
        filt=os.environ.get('FILE')
        if filt: al=[m for m in al if re.search(filt,m['file']+':'+m['func'])]
        random.Random(int(sys.argv[2])).shuffle(al)
        ms=al[:int(sys.argv[1])]; workers=int(sys.argv[3]) if len(sys.argv)>3 else 3; out=OUT
    q=queue.Queue()
    for m in ms: q.put(m)
    def worker(n):
        w=f'/tmp/mut/w{n}' if not FULL else f'/tmp/mut/r{n}'; prep(w)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            c=sorted(cov[f"{m['file']}:{m['line']}"],key=lambda p:size[p])
            if not FULL and not m['file'].startswith('cmd'): c=[p for p in c if p!='C22'] or c # slow
            m={k:m[k] for k in ('file','line','func','off','end','old','new','op')}
            t=time.time()
            try: r=one(w,m,c)
            except Exception as e: r=dict(m,res='error',err=repr(e))
            r['t']=round(time.time()-t)
            with lock:
                open(out,'a').write(json.dumps(r)+'\n')
        
    ts=[threading.Thread(target=worker,args=(i,)) for i in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
