#!/bin/bash
# usage: mut.sh FILE 'python-expr replacing s' PROPERTY... : check properties on a scratch copy with one edit
# (development aid; the registered checks always analyse /repo)
f=$1; old=$2; new=$3; shift 3
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/rebulk $d/rebulk
[ -f "$d/$f" ] || f=rebulk/$f
python3 - "$d/$f" "$old" "$new" <<'P' || { rm -rf "$d"; exit 9; }
import sys
p,old,new=sys.argv[1:]
s=open(p).read()
if old not in s: print("NOT FOUND"); sys.exit(1)
open(p,'w').write(s.replace(old,new,1))
P
for c in "$@"; do SA_REPO=$d python3 -m sa $c | tail -6; done
rm -rf "$d"
