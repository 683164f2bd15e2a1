#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA={}
NOTE={}
LEVEL={}
exec(open('/verif/claims.py').read())
checks=[]
na=[]
for i in props:
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    checks.append(dict(property=i,quick_cmd="bash /verif/check.sh %s quick"%i,thorough_cmd="bash /verif/check.sh %s thorough"%i,
      technique="contract-based deductive verification (govc: contracts, loop invariants and lemmas over the SSA of the real Go code; obligations discharged by z3/cvc5 and a polynomial normaliser)",
      level=LEVEL.get(i,'proof'),level_note=NOTE.get(i,"all obligations generated from /repo's current source are discharged; floats as reals, int as mathematical integers, listed external models trusted; specifications are also replayed on the compiled code")))
json.dump(dict(version=1,setup_cmd="bash /verif/setup.sh",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
