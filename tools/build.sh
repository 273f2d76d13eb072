#!/bin/bash
# Builds the harness against /repo's working tree.  usage: build.sh OUTDIR
set -e
. /opt/vp/env.sh >/dev/null 2>&1 || true
OUT=$1
mkdir -p $OUT/src
cp /verif/harness/*.go $OUT/src/
python3 - "$OUT" <<'PY'
import re,sys
out=sys.argv[1]
s=open('/repo/go.mod').read()
s=re.sub(r'^module .*$','module verif/harness',s,flags=re.M)
s+='\nrequire github.com/childe/healer v0.0.0\nreplace github.com/childe/healer => /repo\n'
open(out+'/src/go.mod','w').write(s)
open(out+'/src/go.sum','w').write(open('/repo/go.sum').read())
PY
cd $OUT/src
go build -o $OUT/vh .
