#!/bin/bash
# prof.sh PROP CASE UNWIND SECONDS: where symbolic execution of a case spends its unrolling (developer aid)
cd "$(dirname "$0")/.."
python3 - "$1" "$2" <<'P'
import sys; sys.path.insert(0,"tools")
import vrun,glob,os,re
prop,name=sys.argv[1:]
cases,heads=vrun.parse_cases(prop)
c=[c for c in cases if c["name"]==name][0]
sym,entry,_=vrun.codegen(prop,cases,heads)
print(vrun.link(prop,sym,entry,c))
P
G=.work/goto/$1/$2.goto
timeout ${4:-60} cbmc --no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --no-bounds-check --no-pointer-check --no-div-by-zero-check --no-pointer-primitive-check --no-self-loops-to-assumptions --object-bits 16 --max-field-sensitivity-array-size 2000 --unwind $3 --unwindset memcmp.0:33 --slice-formula --verbosity 10 $G > .work/prof.log 2>&1
grep -E "nwinding|ecursion" .work/prof.log | sed -E 's/iteration.*//' | sort | uniq -c | sort -rn | cut -c1-260 | head -${5:-30}
grep -E "^(Runtime|Generated|size of)" .work/prof.log; tail -150000 .work/prof.log | grep -oE "function .* \(depth" | sort | uniq -c | sort -rn | head -15 | cut -c1-200; tail -1 .work/prof.log | cut -c1-200; wc -l .work/prof.log
