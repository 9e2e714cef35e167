# exall.sh N START profile... : explores several profiles in parallel
. /verif/env.sh
N=$1; S=$2; shift 2
for p in "$@"; do timeout 1500 /opt/venv-pypy/bin/python /verif/tools/explore.py $p $N $S ${ORS:-all} > /tmp/ex_$p.txt 2>&1 & done
wait
for p in "$@"; do echo "== $p"; cut -c1-600 /tmp/ex_$p.txt | head -40; done
