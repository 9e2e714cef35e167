# source this; m PROP: set P, then  m FILE OLD NEW [runs]
m(){ echo "== $3"; bash /verif/tools/mut.sh $P "$1" "$2" "$3" ${4:-400} 2>&1 | tail -3; }
