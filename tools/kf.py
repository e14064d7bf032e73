#!/usr/bin/env python3
"""Rewrites known_findings.json with one entry per line."""
import json, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
j = lambda x: json.dumps(x, ensure_ascii=False)
open(p, "w").write('{\n "findings": [\n' + ",\n".join("  " + j(x) for x in d["findings"]) + '\n ],\n "fixed": [\n' + ",\n".join("  " + j(x) for x in d["fixed"]) + "\n ]\n}\n")
