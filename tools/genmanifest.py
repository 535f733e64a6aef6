#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED lists the properties with a registered scenario.
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open('properties.jsonl')]
CLAIMED=open('tools/claimed.txt').read().split()
NA={}
for l in open('tools/na.txt'):
    if l.strip():
        k,v=l.strip().split(' ',1); NA[k]=v
m={"version":1,"setup_cmd":"bash ./build.sh","hooks":{"guard":"none: the seam is the system-call boundary (seccomp+ptrace), so /repo needs no hooks and the checked binaries are the unmodified ones","enable":"nothing to enable; checks build /repo's working tree as it is","source_commits":[]},
"checks":[{"property":p['id'],"quick_cmd":f"./check {p['id']} quick","thorough_cmd":f"./check {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":"deterministic simulation with fault injection: seeded search over schedules and fault sequences, real binaries on a simulated kernel","level":"exploration","level_note":"Sampled, not exhaustive: every seed is one exactly repeatable execution of the real code; a clean batch is evidence for the explored executions only. Trusts the simulated kernel's Linux semantics and the scenario's oracle; see DESIGN.md."} for p in props if p['id'] in CLAIMED],
"not_applicable":[{"property":p['id'],"reason":NA.get(p['id'],"not built yet")} for p in props if p['id'] not in CLAIMED]}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
print(len(m['checks']),'claimed',len(m['not_applicable']),'n/a')
