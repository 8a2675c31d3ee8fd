#!/bin/bash
# developer helper: all shards of a module in parallel, violations and totals
v=$1; m=$2; shift 2
d=$(python3 $(dirname $0)/tools/build.py $v) || { echo "$d"; exit 2; }
for i in 0 1 2 3 4 5 6 7; do timeout ${XT:-900} $d/explore --lib $d/librank.so --module $m --shard $i/8 "$@" & done | python3 -c "
import sys,json
S={};seen={}
for l in sys.stdin:
    try: j=json.loads(l)
    except Exception: print(l[:300]); continue
    if j['type']=='summary':
        for k,v in j.items():
            if isinstance(v,bool): S[k]=S.get(k,True) and v
            elif k=='wall': S[k]=max(S.get(k,0),v)
            elif isinstance(v,(int,float)): S[k]=S.get(k,0)+v
    elif j['type']=='violation' and j['key'] not in seen:
        seen[j['key']]=1; print(j['key'],j['confirmed'],'\n   ',j['msg'][:500],'\n   ',j['scenario'][:500],'\n   ',','.join(map(str,j['choices'])))
print(S)"
