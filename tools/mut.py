#!/usr/bin/env python3
"""Self-test: applies each mutant of tools/mutants.py to a scratch copy of /repo and runs checks there.
usage: mut.py [-all] [name-or-property ...]   (-all: run every claimed check on it, not only the one expected)
kind 'bad' must be reported by its property, kind 'ok' (behaviour-preserving) must leave all checks quiet."""
import os,re,sys,shutil,subprocess,tempfile,concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
sys.path.insert(0,here)
import mutants, claims
def norm(b): return b.replace('\r\n','\n')
def apply(root,edits):
    for f,old,new,*n in edits:
        p=os.path.join(root,f); s=open(p,newline='').read(); crlf='\r\n' in s; t=norm(s)
        if t.count(old)<1: raise Exception("not found in %s: %r"%(f,old[:60]))
        t=t.replace(old,new,n[0] if n else 1)
        if crlf: t=t.replace('\n','\r\n')
        open(p,'w',newline='').write(t)
def run(m,binp,allp):
    name,kind,props,edits=m
    d=tempfile.mkdtemp(prefix='mut.'); r=os.path.join(d,'repo'); v=os.path.join(d,'v'); os.makedirs(v)
    try:
        subprocess.check_call(['cp','-a','/repo',r]); shutil.copy(verif+'/known_findings.txt',v)
        try: apply(r,edits)
        except Exception as e: return name,'STALE '+str(e)
        env=dict(os.environ,VERIF_DIR=v,VERIF_REPO=r,GOFLAGS='-mod=readonly')
        b=subprocess.run(['go','vet','-composites=false','.'] if False else ['go','build','./...'],cwd=r,env=env,capture_output=True,text=True)
        if b.returncode: return name,'NOBUILD '+b.stderr[-300:]
        ids=[props] if isinstance(props,str) else list(props)
        if kind=='ok' or allp: ids=sorted(claims.CLAIMS)
        hit=[];out=''
        q=subprocess.run([binp]+ids,env=env,capture_output=True,text=True,timeout=2400)
        buf=[];seen=set()
        for l in q.stdout.split('\n'):
            x=re.match(r'(OK|VIOLATION) property=(C\d+)',l)
            if not x: buf.append(l); continue
            seen.add(x.group(2))
            if x.group(1)!='OK':
                hit.append(x.group(2)); out+='\n'.join(k[:260] for k in buf if ': [' in k and not k.startswith('    '))[:900]+'\n'
            buf=[]
        if len(seen)!=len(ids): out+='NO ANSWER %s'%(set(ids)-seen); hit.append('none')
        want=[props] if isinstance(props,str) else list(props)
        if kind=='bad':
            ok=any(w in hit for w in want)
            return name,('caught ' if ok else 'MISSED ')+','.join(hit)+'\n   '+out.replace('\n','\n   ')
        return name,('quiet' if not hit else 'ALARM '+','.join(hit)+'\n   '+out.replace('\n','\n   '))
    finally: shutil.rmtree(d)
if __name__=='__main__':
    a=sys.argv[1:]; allp='-all' in a; a=[x for x in a if not x.startswith('-')]
    binp=tempfile.mktemp(prefix='vc.')
    subprocess.check_call('. %s/env.sh; cd %s/checker && GOFLAGS=-mod=mod go build -o %s .'%(verif,verif,binp),shell=True,executable='/bin/bash')
    ms=[m for m in mutants.M if not a or any(m[0].startswith(x) or m[2]==x for x in a)]
    bad=0
    with cf.ThreadPoolExecutor(5) as ex:
        for n,r in ex.map(lambda m:run(m,binp,allp),ms):
            if not r.startswith(('caught','quiet')): bad+=1
            print(n,r.rstrip()); sys.stdout.flush()
    os.unlink(binp); print(len(ms),'mutants,',bad,'not as expected')
