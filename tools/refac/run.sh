#!/bin/bash
# run.sh TRANSFORM [MOD REM]: rewrite a scratch copy of /repo and run every claimed check on it; prints alarms.
. /verif/env.sh
d=$(mktemp -d /tmp/refac.XXXXXX); r=$d/repo; mkdir $d/v
cp -a /repo $r; cp /verif/known_findings.txt $d/v
/tmp/refac $r "$@"
cd $r; if ! GOFLAGS=-mod=readonly go build ./... >$d/b.log 2>&1; then echo "$1 NOBUILD"; head -5 $d/b.log; rm -rf "$d"; exit; fi
if [ -n "$T" ]; then GOFLAGS=-mod=readonly timeout 300 go test ./... 2>&1 | grep -- "^--- FAIL\|^FAIL" | head; fi
ids=${CHECKS:-$(cd /verif/tools && python3 -c "import claims;print(*sorted(claims.CLAIMS))")}
VERIF_DIR=$d/v VERIF_REPO=$r GOFLAGS=-mod=readonly VERIF_DEBUG=$DEBUG timeout 3000 /tmp/vc $ids >$d/out 2>&1
NAME="$*" python3 - $d/out $ids <<'P'
import sys,os,re
L,W=int(os.environ.get('L','6')),int(os.environ.get('W','230'))
buf,seen=[],set()
for l in open(sys.argv[1],errors='replace'):
    l=l.rstrip('\n')
    m=re.match(r'(OK|VIOLATION) property=(C\d+)',l)
    if not m:
        if 'rule:' not in l and not l.startswith('KNOWN'): buf.append(l)
        continue
    seen.add(m.group(2))
    if m.group(1)!='OK' or os.environ.get('DEBUG'):
        print(os.environ['NAME'],m.group(2),m.group(1),len(buf))
        for b in buf[:L]: print('   ',b[:W])
    buf=[]
miss=[x for x in sys.argv[2:] if x not in seen]
if miss: print('NO ANSWER',miss); print('\n'.join(buf[-20:]))
P
rm -rf "$d"
