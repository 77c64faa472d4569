#!/bin/bash
# usage: try.sh BINARY PROP SECS [WORKERS] [extra args]: explore in parallel, show the first violation symbolised
cd /verif; b=$1; p=$2; s=$3; w=${4:-8}; shift 4 2>/dev/null
make -s -j8 build/$b 2>&1 | grep -E "error|Error" && exit 9
d=/tmp/try.$b; rm -f $d.*; 
for i in $(seq 0 $((w-1))); do ./build/$b explore --prop $p --seed ${SEED:-1} --worker $i --nworkers $w --secs $s --out $d.$i "$@" > $d.$i.log 2>&1 & done; wait
v=$(ls $d.*.viol 2>/dev/null | head -20)
python3 - $d $w <<'P'
import json,sys,glob
d=sys.argv[1]; t={}
for f in sorted(glob.glob(d+'.*.stats')):
    j=json.load(open(f))
    for k in ('runs','steps','distinct_schedules','distinct_histories','sim_seconds','nontrivial'): t[k]=t.get(k,0)+j[k]
    for m in ('faults','probes','scenarios'):
        for k,v in j[m].items(): t.setdefault(m,{}); t[m][k]=t[m].get(k,0)+v
print(json.dumps(t))
P
grep -h RESULT $d.*.log | sed 's/hash=[^ ]*//; s/seed=[^ ]*//' | sort | uniq -c | sort -rn | head -12
f=$(ls -S $d.*.viol 2>/dev/null | tail -1)
if [ -n "$f" ]; then ./build/$b minimise $f $d.min --secs 20 > $d.minlog 2>&1; tail -2 $d.minlog; ./build/$b replay $d.min --trace > $d.trace 2>&1; tail -${TAILN:-40} $d.trace | tools/sym.sh build/$b; fi
