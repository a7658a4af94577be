#!/usr/bin/env python3
# writes MANIFEST.json from the table of claimed properties
import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CL=json.load(open('/verif/claims.json'))
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],
"notes":"Every check is one run of /verif/govc (a deductive verifier for the Go SSA of /repo's current source) on the contracts of that property in /verif/contracts."}
for p in props:
    i=p['id']
    if i in CL['claimed']:
        c=CL['claimed'][i]
        m['checks'].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"contract-based deductive verification (VCs from go/ssa of the real functions, discharged by z3/cvc5)","level":"proof","level_note":c})
    else:
        m['not_applicable'].append({"property":i,"reason":CL['na'].get(i,"no contract for this property yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
