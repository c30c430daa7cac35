#!/bin/bash
# allseeds.sh [ID...]: try the planted bugs, record the outcome in tools/seed_results.json
cd /verif
for i in ${*:-$(ls seeded)}; do
  o=$(bash tools/tryseed.sh $i 2>/dev/null | tail -1); echo "$o"
  python3 - "$i" "$o" <<'P'
import json,sys,os
f='/verif/tools/seed_results.json'; d=json.load(open(f)) if os.path.exists(f) else {}
o=sys.argv[2]; d[sys.argv[1]]='yes' if 'check exit 1 VIOLATION' in o else ('no' if ': ok ' in o else 'invalid')
d={k:v for k,v in d.items() if os.path.isdir('/verif/seeded/'+k)}
json.dump(d,open(f,'w'),indent=0,sort_keys=True)
P
done
