#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/rules.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = json.load(open(os.path.join(V, "tools", "rules.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = {
 "P01": "a pure function of address, lexicon, locale and filter: no schedule, fault, history or crash point to simulate (that its value does not depend on any of those is C09 and C16)",
 "P02": "a pure function of tokens and grammar; optimality over all derivations is not a matter of schedules, faults or histories",
 "P03": "a pure predicate of the grammar text; what happens after a rejection is C03, C08 and C12",
 "P04": "termination of a pure recursive function over its input; no waiting, timer or event is involved",
 "P05": "a pure function of the text and the locale argument",
 "P06": "a pure function of the file's bytes; chunking, short reads and read errors are C12",
 "P07": "a pure round trip of values in memory; the stored form of a lexicon is C10, C11 and C14",
 "P08": "a pure function of the text",
 "P09": "a quantifier over input bytes only; the part that depends on histories and failing allocations is C04 and C08",
 "P10": "pure combinatorics of one phrase",
 "P11": "agreement of shipped files; nothing executes, nothing can fail or interleave",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "One simulator (sim/), one driver (check.py). No hook in /repo: every seam (allocator, backend API, system calls, memory accesses and locks of threads) is put in at link or code generation time. 'check.py --replay FILE' replays a violation."}
for p in props:
    i = p["id"]
    if i in rules:
        r = rules[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": r["technique"], "level": r["level"], "level_note": r["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": PURE.get(i, "the simulation of this part is still being built")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
