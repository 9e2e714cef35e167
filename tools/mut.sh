#!/bin/bash
# mut.sh PROP 'python expression editing s' FILE...: tries a mutation in a scratch copy
# usage: mut.sh C07 glompo/core/_backends.py 'OLD' 'NEW' [runs]
D=$(mktemp -d /tmp/mutXXXX); cp -a ${REPO:-/repo}/glompo $D/glompo
python3 - "$D/$2" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:4]
s=open(f).read(); assert s.count(o)>=1,('no match',o); open(f,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] && (cd /verif && python3 check.py $1 --repo $D --no-evidence ${5:+--runs $5} ${6:---no-minimise} | cut -c1-400 | tail -6)
rm -rf "$D"
