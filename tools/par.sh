#!/bin/bash
# par.sh N DEPTH HARNESS: all shards of one harness in parallel, summary
N=$1; D=$2; H=$3; cd /verif
python3 -c "import engine;engine.build_all()" || exit 1
for i in $(seq 0 $((N-1))); do echo $i; done | xargs -P 8 -I{} sh -c "MIRSYM_SHARD={}/$N/$D NONAT=${NONAT:-} timeout 1000 python3 dev.py $H > /tmp/par.{} 2>&1"
grep -h -a -A5 "VIOLATION\|ERROR\|MISMATCH" $(seq -f "/tmp/par.%g" 0 $((N-1))) | cut -c1-1500 | head -${LINES_MAX:-30}
python3 - $N <<'P'
import re,sys
n=int(sys.argv[1]); p=s=0; w=[]; rc={}
for i in range(n):
    t=open(f'/tmp/par.{i}').read()
    m=re.search(r"'paths': (\d+).*'steps': (\d+).*'wall_s': ([\d.]+)",t)
    if m: p+=int(m[1]); s+=int(m[2]); w.append(float(m[3]))
    m=re.search(r"reach (\{.*\})",t)
    if m:
        for k,v in eval(m[1]).items(): rc[k]=rc.get(k,0)+v
print('paths',p,'steps',s,'max',max(w or [0]),'sum',round(sum(w)),rc)
P
