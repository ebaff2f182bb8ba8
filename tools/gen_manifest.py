#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check is claimed for every checks/cNN.py."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: round-trip oracle over generated images",
 "C02": "runtime monitoring: independent decoders (and GNU objcopy) observe every written file",
 "C03": "runtime monitoring: independent format generators (and GNU objcopy) feed the readers",
 "C04": "runtime monitoring under injected faults: every single-digit corruption of generated records",
 "C05": "runtime monitoring: refusal oracle at address limits, destination snapshots",
 "C06": "runtime monitoring: option oracle over histories of writes",
 "C07": "runtime monitoring: entry-point agreement, object snapshots, descriptor-table monitor",
 "C08": "runtime monitoring: operation histories against a shadow byte-map model",
 "C09": "runtime monitoring: typed accesses against an independent encoder, whole-memory snapshots",
 "C10": "runtime monitoring: structural invariant checked after every step of insertion histories",
 "C11": "runtime monitoring: byte snapshots of all live objects after each mutation",
 "C12": "runtime monitoring: bitwise reference algorithms observe every call",
 "C13": "runtime monitoring: independent parser of the emitted dumps",
 "C14": "runtime monitoring: patch-application oracle, small inputs enumerated",
 "C15": "runtime monitoring: synthetic ELF files with known contents, readelf as second oracle",
 "C16": "runtime monitoring under injected kills and exceptions at every database/line event, recovery oracle",
 "C17": "runtime monitoring: query results against filters over known file contents, callback event log",
 "C18": "runtime monitoring: generated attribute sections against an independent ABI table",
 "C19": "runtime monitoring: independent encoder, stream positions, truncation at every byte",
 "C20": "runtime monitoring: synthetic DWARF trees with known contents, compiled programs against readelf",
 "C21": "runtime monitoring: independent assembler/renderer of expressions, interleaved processors",
 "C22": "runtime monitoring: concurrent histories with injected switches against the sequential results",
 "C23": "runtime monitoring: byte-map oracle over conversion chains",
 "C24": "runtime monitoring: tool processes in scratch folders, output parsers and exit status oracle",
 "C25": "runtime monitoring: registry histories against a map model, racing first use",
}
LEVEL = {"C04": "fault_enumeration", "C16": "fault_enumeration"}
NOTE = {}
checks = []
na = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    path = os.path.join(HERE, "checks", p.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    level = re.search(r'^LEVEL = "(\w+)"', open(path).read(), re.M)[1]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "technique": TECH[p], "level": level,
                   "level_note": "An oracle observes executions of the real code on generated inputs/histories; held on what was observed (counts in the evidence file), not proved."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Pure Python code base: no compiler sanitizers; all monitors live in /verif and need no hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
