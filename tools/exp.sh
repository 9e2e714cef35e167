# exp.sh PROFILE ORACLES N START : explores one profile with several processes, prints what was found
. /verif/env.sh
P=$1; O=$2; N=$(( ($3+6)/7 )); S=$4
for k in 0 1 2 3 4 5 6; do timeout 1500 /opt/venv-pypy/bin/python /verif/tools/explore.py $P $N $((S+k*N)) $O > /tmp/exp_${P}_$k.txt 2>&1 & done
wait
for k in 0 1 2 3 4 5 6; do grep -v '^$' /tmp/exp_${P}_$k.txt | cut -c1-500 | head -${L:-25}; done
