#!/usr/bin/env python3
# Writes MANIFEST.json from checks.py and properties.jsonl.
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"python3 run.py build all","checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: every seam needed exists in the library (iterators, IStream, output buffers, std::ostream) or below it (allocator, memory accesses of instrumented code). /repo carries only fix: commits; they are listed in known_findings.json."}
NOTE=("Seeded search over simulated executions of the real library code (compiled from /repo's working tree with AddressSanitizer); a clean batch is evidence, not proof. "
      "Trusted: the simulator core, the reference model of this check and the compiler.")
for p in props:
    c=CHECKS.get(p["id"])
    if c: m["checks"].append({"property":p["id"],"quick_cmd":"python3 run.py check %s"%p["id"],
        "thorough_cmd":"python3 run.py check %s --tier thorough"%p["id"],
        "technique":"deterministic simulation with fault injection: "+c["technique"],"level":"exploration",
        "level_note":NOTE+" "+c.get("note","")})
    else: m["not_applicable"].append({"property":p["id"],"reason":"check not built yet"})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
