#!/bin/bash
# tprof.sh PROP CASE UNWIND SECONDS: time-stamped: which functions symex spends wall time in (developer aid; after prof.sh linked it)
cd "$(dirname "$0")/.."
G=.work/goto/$1/$2.goto
timeout ${4:-60} cbmc --no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --no-bounds-check --no-pointer-check --no-div-by-zero-check --no-pointer-primitive-check --no-self-loops-to-assumptions --object-bits 16 --max-field-sensitivity-array-size 2000 --unwind $3 --unwindset memcmp.0:33 --slice-formula --verbosity 10 $G 2>&1 | python3 -c "
import sys,time,re,collections
t=time.time(); t0=t; acc=collections.Counter(); cur='start'; lines=collections.Counter(); tl=[]
nxt=0
for l in sys.stdin:
    n=time.time(); acc[cur]+=n-t; t=n
    m=re.search(r'function (.*) \(depth (\d+)',l)
    if m: cur=m.group(1)[:150]; lines[cur]+=1; last=(m.group(2),cur)
    if n-t0>nxt: print('%.0f'%(n-t0), last if lines else ''); nxt+=5
for k,v in acc.most_common(25): print('%.1f %d %s'%(v,lines[k],k))
"
