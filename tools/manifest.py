#!/usr/bin/env python3
"""Source of MANIFEST.json: run to regenerate it."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = []
def c(p, technique, note, level="exploration"):
    C.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p}", "evidence_file": f"evidence/{p}.json", "technique": technique, "level": level, "level_note": note})
WIRE = "Held on the executions of this run only: random schemas, compiled by the real generator and rustc, random values per type. Trusts the reference codec and schema generator in harness/core."
c("C01", "runtime monitoring: round-trip monitor over generated code", WIRE)
c("C02", "runtime monitoring: announced size against written bytes", WIRE)
c("C03", "runtime monitoring: hostile input under allocation meter, read budget, overflow checks and panic monitor", WIRE)
c("C04", "runtime monitoring: cross-version decoding against a projection model", WIRE)
c("C05", "runtime monitoring: reference-model monitor over integers and byte strings", "Exhaustive for 16 bit values, sampled around every power of two for the wider ones.")
c("C28", "runtime monitoring: model and metamorphic monitor over keys, containers and byte strings", "Exhaustive for raw keys, sampled for values and byte strings.")
c("C06", "runtime monitoring: fault injection into encodings, verdicts against a reference decoder", WIRE)
c("C07", "runtime monitoring: contiguous against fragmented buffers", WIRE)
c("C08", "runtime monitoring: bytes against an independent implementation of the wire format", WIRE)
exec(open(os.path.join(ROOT, "tools", "manifest_front.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_front.py")) else None
claimed = {x["property"] for x in C}
na = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in claimed: na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": C, "not_applicable": na, "notes": "No hooks in /repo: everything is observed through public interfaces, generated code and processes. known_findings.json lists genuine defects; DESIGN.md describes the method."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
