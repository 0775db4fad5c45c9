#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
NA = {
}
PENDING = []
for p in PENDING: NA[p] = "contracts for these functions are still being written"
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
TRUST="Trusted: Verus/Z3, rustc's macro expansion, the mechanical extraction (tool/, rules in DESIGN.md), the assumed contracts on std containers in contracts/00_shim.vspec, determinism of user callbacks, user Error/Tracker types. "
checks=[]
for p in P:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"python3 check.py {i} --thorough","evidence_file":f"evidence/{i}.json",
      "technique":"contract-based deductive verification (Verus) of the functions extracted from /repo/src on every run; failed obligations replayed by a search on the real crate",
      "level":"proof",
      "level_note":f"Every contract obligation of the functions this property rests on is discharged for all inputs, programs and iterations. {TRUST}A function restructured beyond the verifier's reach is checked by a bounded random search instead and reported as such in the evidence."})
m={"version":1,"setup_cmd":"cargo build --offline --quiet --manifest-path tool/Cargo.toml && cargo build --offline --quiet --manifest-path harness/Cargo.toml",
 "checks":checks,"not_applicable":[{"property":p['id'],"reason":NA[p['id']]} for p in P if p['id'] in NA],
 "notes":"No hooks in /repo: the checks read its source and use its public API only. known-findings.txt lists the defects repaired by fix: commits."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
