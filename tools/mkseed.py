#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py-style definitions and verifies each one.
usage: mkseed.py [-n] [name-prefix ...]   (-n: only write, do not verify)"""
import os,sys,json,subprocess,shutil,tempfile
T=os.path.dirname(os.path.abspath(__file__)); SEED=os.path.join(os.path.dirname(T),'seeded')
sys.path.insert(0,os.path.join(T,'seeds'))
from defs import S
DEMO='''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken. Run in the repository root after a build.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{%s}}' "$(for f in "$d"/*_test.go; do printf '"%s/PKGzz_%s":"%s",' "$PWD" "$(basename "$f")" "$f"; done | sed 's/,$//')" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off RACE -count=1 -timeout 120s -run '^TestDemo$' ./PKG
'''
def sh(c,cwd,t=600):
    p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
def main():
    a=sys.argv[1:]; nov='-n' in a; a=[x for x in a if x!='-n']
    for s in S:
        if a and not any(s['id'].startswith(x) for x in a): continue
        out=os.path.join(SEED,s['id']); shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        w=tempfile.mkdtemp(prefix='seed.'); r=os.path.join(w,'repo')
        try:
            subprocess.run(['cp','-a','/repo',r],check=True)
            for e in s['edits']:
                f,o,n=e[:3]; k=e[3] if len(e)>3 else None
                p=os.path.join(r,f); t=open(p,newline='').read(); crlf='\r\n' in t; t=t.replace('\r\n','\n')
                if k is None:
                    assert t.count(o)==1,(s['id'],f,t.count(o),o)
                    t=t.replace(o,n)
                else:
                    q=t.split(o); t=o.join(q[:k+1])+n+o.join(q[k+1:])
                if crlf: t=t.replace('\n','\r\n')
                open(p,'w',newline='').write(t)
            diff=subprocess.run(['git','diff','--no-color'],cwd=r,capture_output=True).stdout
            open(out+'/patch.diff','wb').write(diff)
            pkg=s.get('pkg','')
            open(out+'/demo.sh','w').write(DEMO.replace('PKG',pkg+'/' if pkg else '').replace('RACE','-race' if s.get('race') else ''))
            os.chmod(out+'/demo.sh',0o755)
            if not pkg or s.get('dev'): shutil.copy(os.path.join(T,'seeds','dev_test.go'),out+'/dev_test.go')
            open(out+'/demo_test.go','w').write(s['demo'].lstrip('\n'))
            json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+'/meta.json','w'),indent=1)
            if nov: print(s['id'],'written'); continue
            # demo expects /repo as cwd: run in the copy
            d=os.path.join(w,'demo'); shutil.copytree(out,d)
            for f in ('patch.diff','meta.json'): os.remove(os.path.join(d,f))
            c1,o1=sh('bash %s/demo.sh'%d,'/repo')
            c2,o2=sh('bash %s/demo.sh'%d,r)
            env='export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod;'
            c3,o3=sh(env+'go build ./... && go vet -vettool= ./... >/dev/null 2>&1; go build ./...',r)
            c4,o4=sh(env+'go test -json -vet=off -count=1 -timeout 10m ./... > %s/log; python3 /opt/vp/results.py %s/t.json gojson:%s/log'%(w,w,w),r)
            miss='?'
            try:
                b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(w+'/t.json'))
                B=b["stable"]
                P=t["passed"]
                miss=[x for x in B if x not in set(P)]
            except Exception as e: miss='error %r'%e
            good=c1==0 and c2!=0 and c3==0 and miss==[] and '[build failed]' not in o2
            print(s['id'],s['prop'],'clean',c1,'patched',c2,'build',c3,'missing',miss,'' if good else '<<<<< BAD')
            if c1: print(o1[-1500:])
            if not good: print(o2[-1500:])
        finally: shutil.rmtree(w)
if __name__=='__main__': main()
