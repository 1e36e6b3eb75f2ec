#!/bin/bash
# dev.sh PROP [sym|conc|both] [harness]  - developer loop, prints a summary
P=$1; M=${2:-both}; H=$3
T=$(mktemp -d); trap 'rm -rf $T' EXIT
echo "{\"budget\":${BUD:-120},\"seed\":${SEED:-1},\"conc_budget\":${CB:-2},\"conc_budget_of\":{},\"ms\":${MS:-8000},\"bounded\":${BOUNDED:-0}$( [ -n "$H" ] && echo ",\"only\":[\"$H\"]")}" > $T/cfg.json
cd $(dirname $0)
for m in sym conc; do
 if [ $M = both -o $M = $m ]; then
  timeout 900 /opt/venv/bin/python pydv/worker.py $m $P $T/cfg.json $T/o.json > $T/log 2>&1
  [ -n "$TB" ] && cat $T/log
  grep -E "preload failed" $T/log
  [ -f $T/o.json ] || tail -20 $T/log
  /opt/venv/bin/python - $m $T/o.json <<'P'
import json,sys
m,f=sys.argv[1:]
r=json.load(open(f))
for h,x in r.items():
    if 'crash' in x: print('  CRASH',h,x); continue
    if m=='sym':
        ob=x['obligations']; bad=[o for o in ob if o['status']!='proved']
        print(f"{'OK ' if not bad and not x['unsupported'] and ob else 'BAD'} {h}: ob={len(ob)} bad={len(bad)} paths={x['paths']}/{x['cut_paths']}/{x['exc_paths']} solver={x['solver_time']} wall={x['wall']} reach={x['reach']} fns={len(x['functions'])}", ('UNSUP '+x['unsupported']) if x['unsupported'] else '')
        seen=set()
        for o in bad:
            if o['name'] in seen: continue
            seen.add(o['name'])
            print('    ',o['name'],o['status'],o.get('goal','').replace('\n',' ')[:int(__import__('os').environ.get('GL','160'))], json.dumps(o.get('inputs'))[:200])
    else:
        if x['fail'] or x['errors'] or not x['runs']: print('    conc',h,{k:x[k] for k in ('runs','skips','checked','errors')}, 'FAIL '+json.dumps(x['fail'])[:600] if x['fail'] else '')
        else: okc=globals().get('okc',0)+1
if m=='conc': print('conc ok:',globals().get('okc',0),'of',len(r))
P
 fi
done
