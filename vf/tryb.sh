#!/bin/bash
# tryb.sh PROP [tier]: run the bounded harness of one property, 8 shards, against /tmp/bt
P=$1; T=${2:-quick}; D=${3:-/tmp/bt}
for s in 0 1 2 3 4 5 6 7; do
 ( PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 VF_BUDGET=${VF_BUDGET:-100} timeout 150 /opt/venv/bin/python /verif/vf/bounded/worker.py $P $s 8 $T 1 $D /tmp/o_$s.json || echo "shard $s died rc=$? $(cat /tmp/o_$s.json.cur)" ) &
done; wait
python3 - <<'E'
import json,os
n=0;v=[];w=0;tr=False
for s in range(8):
    f=f'/tmp/o_{s}.json'
    if os.path.exists(f):
        d=json.load(open(f)); n+=d['evaluations']; v+=d['violations']; w=max(w,d['wall']); tr|=d['truncated']; os.remove(f)
print('evals',n,'wall',round(w,1),'trunc',tr,'viol',len(v))
seen={}
for c,m in v:
    k=m[:60]
    seen.setdefault(k,[]).append((c,m))
for k,l in list(seen.items())[:7]: print(len(l),l[0][0],'\n    ',l[0][1][:150], '...', l[0][1][-300:])
E
