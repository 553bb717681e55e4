#!/bin/bash
# replay.sh PROPERTY CASE VALUES: runs one recorded assignment natively against /repo's current tree
cd "$(dirname "$0")/.."
exec python3 - "$@" <<'P'
import sys; sys.path.insert(0, "tools")
import os, vrun
prop, name, values = sys.argv[1:4]
cases, heads = vrun.parse_cases(prop)
case = [c for c in cases if c["name"] == name][0]
os.makedirs(vrun.WORK, exist_ok=True)
vrun.mirror()
for profile in ("dev", "release"):
    print(profile, *vrun.replay(prop, cases, heads, case, os.path.abspath(values), profile))
P
