"""cov.py: which check reaches which line (one shard of each quick check, with
coverage).  Writes /tmp/mut/cov.json: {"file:line": [checks]}."""
import json, os, re, subprocess, sys, glob, shutil, concurrent.futures as cf
sys.path.insert(0, '/verif')
import check as C
W='/tmp/mut/cov'
def main():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    env=C.goenv()
    src=open('/verif/harness/go.mod').read()
    open(W+'/go.mod','w').write(src); shutil.copy('/verif/harness/go.sum',W+'/go.sum')
    pk='github.com/sa6mwa/krypto431,github.com/sa6mwa/krypto431/diana,github.com/sa6mwa/krypto431/crand'
    subprocess.run(['go','test','-c','-vet=off','-mod=mod','-modfile='+W+'/go.mod','-cover','-coverpkg='+pk,'-o',W+'/checks.test','./checks'],cwd='/verif/harness',env=env,check=True)
    subprocess.run(['go','build','-buildvcs=false','-mod=mod','-cover','-coverpkg=./...','-o',W+'/real','./cmd/krypto431'],cwd='/repo',env=env,check=True)
    def one(i):
        pid='C%02d'%i
        d=f'{W}/{pid}'; os.makedirs(d+'/tmp'); os.makedirs(d+'/cli')
        open(d+'/krypto431','w').write(f'#!/bin/sh\nGOCOVERDIR={d}/cli exec {W}/real "$@"\n'); os.chmod(d+'/krypto431',0o755)
        os.system(f'chown -R 65534:65534 {d}')
        e=C.goenv(); e.update(VERIF_STATS=d+'/stats.json',VERIF_TIER='quick',VERIF_SHARD='0',VERIF_SHARDS='8',VERIF_CLI=d+'/krypto431',VERIF_REPLAY_DIR=d,TMPDIR=d+'/tmp',HOME=d,VERIF_SEED='1')
        r=subprocess.run([W+'/checks.test','-test.run',f'^Test{pid}$','-test.timeout=1200s',f'-test.coverprofile={d}/lib.out',f'-rapid.seed={C.seed_for(1,pid,0)}'],cwd=d,env=e,stdout=open(d+'/log','w'),stderr=subprocess.STDOUT,user=65534,group=65534,extra_groups=[])
        print(pid,r.returncode,flush=True)
        if os.listdir(d+'/cli'):
            subprocess.run(['go','tool','covdata','textfmt',f'-i={d}/cli',f'-o={d}/cli.out'],env=env,cwd='/repo')
    with cf.ThreadPoolExecutor(5) as ex: list(ex.map(one,range(1,29)))
    res={}
    for i in range(1,29):
        pid='C%02d'%i
        for f in glob.glob(f'{W}/{pid}/*.out'):
            for l in open(f):
                m=re.match(r'github.com/sa6mwa/krypto431/(\S+):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)',l)
                if m and m.group(4)!='0':
                    for n in range(int(m.group(2)),int(m.group(3))+1):
                        res.setdefault(f'{m.group(1)}:{n}',set()).add(pid)
    json.dump({k:sorted(v) for k,v in res.items()},open('/tmp/mut/cov.json','w'))
    print(len(res))
main()
