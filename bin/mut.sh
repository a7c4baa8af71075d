#!/bin/bash
# mut.sh FILE 'old' 'new' ID...   try a one-string mutation of /repo/FILE against checks, in a private mount namespace (nothing outside sees it)
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a ${MUT_BASE:-/repo}/. "$d"/
export MUT_D=$d
unshare -m bash -c '
mount --make-rprivate / ; mount --bind "$MUT_D" /repo || exit 9
f=$1; old=$2; new=$3; shift 3
python3 - "$f" "$old" "$new" <<"PY"
import sys
f,o,n=sys.argv[1:]
p="/repo/"+f; s=open(p).read()
assert s.count(o)>=1,("not found",o)
if s.count(o)>1: print("note: %d occurrences, first replaced"%s.count(o))
open(p,"w").write(s.replace(o,n,1))
PY
[ $? = 0 ] || exit 1
for id in "$@"; do node /verif/bin/check.mjs $id 2>&1 | tail -8; done
' mut "$@"
rm -rf "$d"
