#!/bin/bash
# mut.sh FILE 'python-expr old' 'new' [roots]   : try a textual mutation on a scratch copy and show failing obligations
f=$1; old=$2; new=$3; shift 3
D=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. $D/
python3 - "$D/$f" "$old" "$new" <<'P' || { rm -rf "$D"; exit 3; }
import sys
p,o,n=sys.argv[1:4]; s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
if s.count(o)<1: print("NO MATCH"); sys.exit(1)
s=s.replace(o,n,1); open(p,'w').write(s)
P
(cd $D && GOFLAGS=-mod=mod GOPROXY=off go build ./... ) || { echo BUILD FAIL; rm -rf "$D"; exit 3; }
if [ -n "$1" ]; then /verif/bin/gvc -repo $D -root $1 2>&1; else /verif/bin/gvc -repo $D -all 2>&1; fi | cut -c1-220 | grep -A200 . | grep "^FAIL\|   x\|not analys\|cannot load\|panic"
rm -rf "$D"
