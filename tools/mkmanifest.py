#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that are there."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DIFF = "runtime monitoring: differential oracle over outputs of generated patch runs"
MAPS = DIFF + ", conservation monitors on the address/bit map"
NOTE = ("exploration: the real binary (overflow checks on) runs on seeded generated devices and patches; an independent "
        "reference interpreter of the documented rules judges each output; nothing beyond the explored inputs is claimed")
TECH = {i: DIFF for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C15", "C16", "C17", "C18", "C33")}
TECH.update({i: MAPS for i in ("C10", "C11", "C12", "C13", "C14")})
TECH.update({
 "C19": "runtime monitoring: reference merge over generated include trees, for the expanded and for the applied patch",
 "C20": "runtime monitoring: dependency list against a reference, confirmed by removing files and by the log of opened files (strace)",
 "C21": "runtime monitoring: metamorphic monitor (sections permuted, phases as separate runs)",
 "C22": "runtime monitoring under fault injection: file-state and exit-status monitors",
 "C23": "runtime monitoring: repeated runs under varied schedules, threads, environment; output log comparison",
 "C24": "runtime monitoring: round-trip monitors over generated devices and format chains",
 "C25": "runtime monitoring: fact-set conservation monitor over option combinations",
 "C26": "runtime monitoring: listing of both implementations against an address-map oracle",
 "C27": "runtime monitoring: listing of both implementations against an interrupt-map oracle",
 "C28": "runtime monitoring: parsed pages against a page-fact oracle",
 "C29": "runtime monitoring: parsed comparison pages against a membership oracle",
 "C30": "runtime monitoring: metamorphic and reference monitor over number notations",
 "C31": "runtime monitoring: normalising comparison over format configurations",
 "C32": "runtime monitoring: reference validator against accepted and refused results",
 "C34": "runtime monitoring: differential run of the Python and Rust patchers",
 "C35": "runtime monitoring: refusal monitor (status, message, outputs) over a catalogue of malformed values, mutated patches and damaged files",
 "C36": "runtime monitoring: read-back monitor (empty patch on every result), reference decides what is unreadable",
 "C37": "runtime monitoring: refusal monitor (status, message, outputs) over damaged device descriptions, each next to its accepted original",
 "C38": "runtime monitoring: scaling monitors (copies of one result, reference interpreter, listings) over large workloads",
})
LEVEL = {"C22": "fault_enumeration"}
LNOTE = {}
NA = {}
if os.path.exists(os.path.join(V, "tools", "notes.json")):
    x = json.load(open(os.path.join(V, "tools", "notes.json")))
    LNOTE.update(x.get("level_note", {})); NA.update(x.get("not_applicable", {}))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for i in props:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": LNOTE.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
