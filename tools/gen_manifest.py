#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the analyzer knows."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
subprocess.check_call([V + "/check.sh", "--build"])
techs = dict(l.split("\t", 1) for l in subprocess.check_output([V + "/analyzer/bin/mc", "-list"], text=True).splitlines())
NA = {
 "C42": "the bound is about arrivals over real time; the token arithmetic that yields it lives in golang.org/x/time/rate, outside this repository. What the repository contributes (one bucket per client, created with the configured rate and burst, a token taken before every pass) is decided statically as C14.",
 "C43": "equality of what is loaded with what was saved last quantifies over histories of crashes, restarts and file contents through encoding/json; no static argument in reach bounds that. The structural part (atomic replacement, no save while inactive, checked writes) is decided as C32.",
 "C44": "byte-for-byte equality over all bodies and chunkings is a property of net/http's transport and io.Copy; the source only shows that the body value is handed over unread, unreplaced and copied once, which is decided in C25.",
}
NOTE = ("Path-sensitive dataflow over the type-checked program's SSA form: every path of the functions named in the evidence is enumerated with canonical values and branch facts, and each rule instance is an obligation; nothing is executed and no solver is used. "
        "A path the analysis cannot decide is reported, never skipped. Trusts go/types, go/ssa, documented behaviour of the standard library, and that pointers kept in different fields do not alias unless the code copies one into the other.")
checks = []
for p in props:
    i = p["id"]
    if i in techs:
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
            evidence_file="evidence/%s.json" % i, technique="static analysis: " + techs[i], level="other", level_note=NOTE))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in techs]
json.dump(dict(version=1, setup_cmd="./check.sh --build", checks=checks, not_applicable=na,
    notes="All checks are one static analyzer (analyzer/), see DESIGN.md. known_findings.txt lists repaired defects."), open(V + "/MANIFEST.json", "w"), indent=1)
