#!/bin/bash
# development helper: tools/one.sh PROP FROM MAX [WALL]
cd /verif; . /opt/vp/env.sh
mkdir -p .build/j
cat > .build/j/a.json <<J
{"kind":"explore","prop":"$1","from":$2,"step":1,"max":$3,"wall":${4:-60}000000000,"shrink":10000000000,"out":"/verif/.build/j/a.out","progress":"/verif/.build/j/a.prog"}
J
rm -f .build/j/a.out
SIM_JOB=/verif/.build/j/a.json GOMAXPROCS=1 timeout 300 .build/world${5}.test -test.run TestWorker >.build/j/a.log 2>&1; echo rc=$?; tail -c 3000 .build/j/a.log
python3 - <<P
import json
r=json.load(open('/verif/.build/j/a.out'))
for k in ('Sites','sites','preempts','samples'): r.pop(k,None)
print(json.dumps(r,indent=0)[:7000])
P
