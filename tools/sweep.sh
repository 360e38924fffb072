#!/bin/bash
# development helper: tools/sweep.sh FROM WALL PROPS... : run profiles in parallel
cd /verif; . /opt/vp/env.sh; mkdir -p .build/j
from=$1; wall=$2; shift 2
run() { p=$1
cat > .build/j/$p.json <<J
{"kind":"explore","prop":"$p","from":$from,"step":1,"max":0,"wall":${wall}000000000,"shrink":8000000000,"out":"/verif/.build/j/$p.out","progress":"/verif/.build/j/$p.prog"}
J
rm -f .build/j/$p.out
SIM_JOB=/verif/.build/j/$p.json GOMAXPROCS=1 timeout 600 .build/world$BIN.test -test.run TestWorker >.build/j/$p.log 2>&1
echo "$p rc=$?"
}
export -f run; export from wall BIN
echo "$@" | tr ' ' '\n' | xargs -P 8 -I{} bash -c 'run {}' 
python3 - "$@" <<'P'
import json,sys
for p in sys.argv[1:]:
    try: r=json.load(open(f'/verif/.build/j/{p}.out'))
    except Exception as e: print(p,'NO RESULT',open(f'/verif/.build/j/{p}.log').read()[-1500:]); continue
    a=r['agg']
    print(p,'runs',r['runs'],'%.0f/s'%(r['runs']/(r['wall']/1e9)),'conc',a['Concurrent'],'aband',a['Abandoned'],'det',a['DetChecks'],a['DetFailures'],'maxsteps',a['MaxSteps'],'acc',a['Accepted'],'ref',a['Refused'],'other',r['other'])
    for k,v in (r['other_ex'] or {}).items(): print('   OTHER',k,v[:400])
    for t in r['trouble'] or []: print('   TROUBLE',t[:1500])
    for f in r['found'] or []: print('   FOUND',f['class'],'seed',f['seed'],f['violation']['tags'],f['violation']['text'][:500],f['original'],f.get('minimised'))
P
