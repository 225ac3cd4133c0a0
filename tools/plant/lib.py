import os,subprocess,json,shutil,sys,tempfile
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# Exit 0 when the property holds for the scenario in demo_test.go.txt, else 1.
# Runs in the root of the repository; writes to a scratch directory only.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
printf '{"Replace": {"%%s/%(pkg)szz_seed_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$d/overlay.json"
export SCRATCH=$d
go test -overlay "$d/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestSeedDemo$' ./%(pkg)s
'''
CLI='''#!/bin/bash
# Exit 0 when the property holds for the scenario in demo.py, else 1.
# Runs in the root of the repository; writes to a scratch directory only.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/krypto431" ./cmd/krypto431 || exit 2
python3 "$here/demo.py" "$d"
'''
HDR='''package krypto431_test

import (
%s
)
'''
def run(cmd,cwd=None,t=900,env=None):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t,env=env)
def fresh(p):
    shutil.rmtree(p,ignore_errors=True); run(f'cp -a /repo {p}')
def make(b):
    d=f'{SEED}/{b["id"]}'
    w='/tmp/sd/w'; fresh(w)
    for f,old,new in b['edits']:
        s=open(f'{w}/{f}').read()
        assert s.count(old)==1,(b['id'],f,s.count(old),old)
        open(f'{w}/{f}','w').write(s.replace(old,new))
    os.makedirs(d,exist_ok=True)
    diff=run('git diff',cwd=w).stdout
    open(f'{d}/patch.diff','w').write(diff)
    if 'demo' in b:
        open(f'{d}/demo_test.go.txt','w').write(b['demo'].lstrip())
        open(f'{d}/demo.sh','w').write(DEMO%dict(pkg=b.get('pkg','')))
    else:
        open(f'{d}/demo.py','w').write(b['cli'].lstrip())
        open(f'{d}/demo.sh','w').write(CLI)
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(f'{d}/meta.json','w'),indent=1)
    # original lines removed?
    own=set()
    for f,_,_ in b['edits']:
        bl=run(f'git blame -s {f}',cwd='/repo').stdout
        for l in bl.splitlines():
            if not l.startswith('^'): own.add(l.split(') ',1)[-1])
    rem=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    orig=[l for l in rem if l not in own]
    # build + tests
    r=run('. /opt/vp/env.sh; go build ./... && go build -o krypto431 ./cmd/krypto431 && go test -json -vet=off -count=1 $(go list ./... | grep -v /crand$)',cwd=w)
    ok=r.returncode==0
    fresh('/tmp/sd/c')
    c=run(f'bash {d}/demo.sh',cwd='/tmp/sd/c'); p=run(f'bash {d}/demo.sh',cwd=w)
    print(f'{b["id"]:28} build+tests={"ok" if ok else "FAIL"} clean={c.returncode} patched={p.returncode} removed={len(rem)} orig={len(orig)}',flush=True)
    if not ok: print(r.stdout[-1500:],r.stderr[-1500:])
    if c.returncode: print('CLEAN:',c.stdout[-2500:],c.stderr[-1000:])
    if p.returncode==0: print('PATCHED PASSES:',p.stdout[-800:],p.stderr[-800:])
    elif '-v' in sys.argv: print('PATCHED:',p.stdout[-800:],p.stderr[-800:])
def main(bugs):
    ids=[a for a in sys.argv[1:] if not a.startswith('-')]
    for b in bugs:
        if not ids or b['id'] in ids: make(b)
