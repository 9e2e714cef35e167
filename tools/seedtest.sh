#!/bin/bash
# seedtest.sh ID [notests|check|full]: confirms a planted bug in a scratch copy (demo both ways, tests), then runs its property's check
ID=$1; D=$(mktemp -d /tmp/seedXXXX); mkdir $D/r; S=/verif/seeded/$ID
cp -a /repo/. $D/r/; rm -rf $D/r/.git
cp -a $S $D/s; rm -f $D/s/*.diff $D/s/meta.json
(cd $D/r && bash $D/s/demo.sh > $D/o1 2>&1); a=$?
(cd $D/r && git init -q . >/dev/null && git apply $S/patch.diff) || { echo "$ID: patch does not apply"; exit 1; }
rm -rf $D/r/.git
(cd $D/r && bash $D/s/demo.sh > $D/o2 2>&1); b=$?
echo "$ID demo unchanged=$a patched=$b: $(tail -1 $D/o1 | cut -c1-80) | $(tail -1 $D/o2 | cut -c1-120)"
if [ "$2" != notests ]; then
  mkdir -p $D/env; cp -a /opt/glompo-env/mpl $D/env/
  sed "s#R=/opt/glompo-env#R=$D/env#; s#cd /repo#cd $D/r#" /opt/vp/test.sh > $D/test.sh
  bash $D/test.sh $D/t.json > $D/t.log 2>&1
  python3 - $ID $D/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: t=json.load(open(sys.argv[2]))['passed']
except Exception as e: print(e); t=[]
m=[x for x in b if x not in set(t)]
print(sys.argv[1], 'tests missing', len(m), m[:6])
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != tests ]; then (cd /verif && python3 check.py $P --repo $D/r --no-evidence --no-minimise | cut -c1-300 | tail -3); fi
rm -rf "$D"
