#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks_cfg.py and properties.jsonl
import json, sys
sys.path.insert(0,"/verif")
from checks_cfg import CHECKS
import importlib, checks_cfg
NA=getattr(checks_cfg,"NOT_APPLICABLE",{})
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
   "notes":"No hooks in /repo: the harnesses compile the unmodified headers with gcc's -fsanitize=thread instrumentation and link mc/mcrt.cpp (a stateless model checker) in place of libtsan."}
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"python3 check.py "+i+" --thorough","evidence_file":"evidence/%s.json"%i,
          "technique":c.get("technique","stateless model checking of the real code: all schedules up to a deviation bound"),
          "level":"model_checking","level_note":c.get("note","Every schedule of the listed small scenarios with at most the reported number of deviations from the default schedule is executed on the real code and checked; nothing is sampled. Trusts the runtime in mc/ and sequential consistency.")})
    else: m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json"))); print(len(m["checks"]),"checks")
