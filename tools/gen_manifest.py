#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below; properties without a claim are listed as not applicable with the reason."""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H+"/tools")
from claims import CLAIMS, NA
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
ids=[p["id"] for p in props]
checks=[]; na=[]
for i in ids:
    if i in CLAIMS:
        checks.append(dict(property=i,quick_cmd="python3-vt run.py %s --tier quick"%i,thorough_cmd="python3-vt run.py %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,
          technique="contract-based deductive verification of the LLVM IR compiled from the current headers (VC generation, loop invariants, z3/cvc5)",level="proof",level_note=CLAIMS[i]))
    else: na.append(dict(property=i,reason=NA.get(i,"not built yet: no contract has been written for this property so far")))
json.dump(dict(version=1,setup_cmd="python3-vt run.py --selftest",checks=checks,not_applicable=na,notes="See DESIGN.md."),open(H+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
