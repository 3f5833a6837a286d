#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks implemented by the harness."""
import json, os, re, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
src = ""
for root, _, files in os.walk(os.path.join(here, "harness/src")):
    for f in files:
        src += open(os.path.join(root, f)).read()
implemented = set(re.findall(r'fn id\(&self\) -> &\'static str \{\s*"(C\d\d)"', src))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "default": "runtime monitoring: real code run on generated workloads, output interpreted by a terminal emulator, judged by an independent reference model",
 "C07": "runtime monitoring of operation histories with a column-accounting monitor",
 "C09": "runtime monitoring of operation histories against a sequential scroll model",
 "C10": "runtime monitoring: monitor of geometry invariants over swept and random inputs",
 "C12": "runtime monitoring of operation histories against a sequential list model",
 "C13": "runtime monitoring of operation histories against a sequential text editor model",
 "C15": "runtime monitoring of event histories against a sequential editor model",
 "C16": "runtime monitoring: differential oracle on renderings before and after serialization",
 "C17": "runtime monitoring: reference parser oracle on generated definitions",
 "C20": "runtime monitoring: reference expansion oracle on observed output",
 "C21": "runtime monitoring of child processes fed with scripted input, including end of input at any point",
 "C22": "runtime monitoring of recorded event histories of child processes on pseudo terminals (order, exactly-once, back-pressure)",
 "C23": "runtime monitoring of recorded tick histories (count, earliest time, none after stop) and ThreadSanitizer",
 "C26": "runtime monitoring with overflow checks and debug assertions: crash, hang and malformed output monitors on hostile inputs",
 "C30": "fault injection: writers and stdout failing, short or interrupted at chosen points, with monitors on the bytes accepted and the returned error",
 "C27": "runtime monitoring: concurrent renderings compared with sequential ones, ThreadSanitizer",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in implemented:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": TECH.get(i, TECH["default"]),
            "level": "exploration",
            "level_note": "Held on all the executions observed (counts in the evidence file), nothing more; trusts the harness's reference model and terminal emulator, and the markdown parser (minimad).",
        })
    else:
        na.append({"property": i, "reason": "not claimed: the check is not built yet"})
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hook is needed in /repo: the checks use the public API only. Fixes are listed in known_findings.json.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", [x["property"] for x in na])
