#!/usr/bin/env python3
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"../..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
note={
"default":"Seeded search: the property held on every simulated run listed in the evidence. Trusts the simulator's network, Redis, Kubernetes and clock models, the oracle, and that the patched Go runtime keeps the language's semantics; single-P execution with yield points reaches interleavings at statement level, not weak-memory effects.",
"C21":"Seeded search under the Go race detector (happens-before, by vector clocks): no unordered conflicting access by kache's code and no crash on any simulated run listed in the evidence. The detector sees only accesses that a run performs; accesses of the simulator itself are left out.",
}
m={"version":1,"setup_cmd":"./build.sh",
"hooks":{"guard":"faketime","enable":"go build -tags faketime -overlay .build/overlay.json (build.sh): seams are put into copies of the Go runtime, net, os and of /repo/pkg in the overlay; /repo itself needs no hooks","source_commits":[]},
"checks":[],"not_applicable":[],
"notes":"bin/check -replay FILE repeats a violation from its replay file. See DESIGN.md."}
for p in props:
    i=p["id"]
    m["checks"].append({"property":i,"quick_cmd":f"bin/check -prop {i} -tier quick","thorough_cmd":f"bin/check -prop {i} -tier thorough",
     "technique":("deterministic simulation with fault injection: seeded search over schedules and faults under a happens-before race detector" if i=="C21" else "")or"deterministic simulation with fault injection: seeded search over schedules and faults of the whole system, history oracle",
     "level":"exploration","level_note":note.get(i,note["default"])})
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
