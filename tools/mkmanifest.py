#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = "".join(open(os.path.join(root, "sim/zsim/simcheck", f)).read() for f in os.listdir(os.path.join(root, "sim/zsim/simcheck")) if f.endswith(".go"))
claimed = set(re.findall(r'Prop:\s*"(C\d\d)"', src))
NA = {
 "C41": "printing is a pure sequential function of one file's bytes: no schedule, clock, I/O, fault or second party can influence it",
 "C42": "a pure sequential function of one file's bytes; only input generation could sample it, and there is nothing to simulate",
 "C43": "comment assignment is a pure sequential function of one file's bytes; nothing to schedule or to make fail",
 "C44": "the parser is a pure sequential function of a byte slice in memory; it performs no I/O and shares no state",
 "C45": "fixing and re-linting one file in memory is a pure function of the file; no nondeterminism or fault is involved",
 "C46": "the effect of a command on a syntax tree is a pure function of tree and command; no schedule, clock or fault is involved",
 "C47": "label parsing and shortening are pure string functions",
 "C48": "comment matching is a pure function of one parsed file",
 "C49": "load edits are pure functions on one syntax tree",
 "C50": "the precedence of flags is a pure function of the arguments and the configuration text; what faults can do to the configuration is C19",
}
NOTE = "Seeded search: random schedules, fault sequences, inputs and configurations on the transformed sources of the tree under test, in one process under a simulated operating system; a clean run is evidence, not proof. Trusts the source transformation and the simulated system calls (validated against the untransformed tools, see DESIGN.md)."
EXTRA = {
 "C18": "Built with the race detector; goroutines are real and run one at a time under the seeded scheduler, which hides its own synchronisation from the detector.",
 "C29": "index.js and launcher.js run in node's vm with simulated modules; the process they ask for is the simulated buildozer.",
 "C27": "launcher.js runs in node's vm with simulated child_process and process objects.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": "deterministic simulation with fault injection (seeded schedules, faults and crash points)",
            "level": "exploration", "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none: the sources are transformed into a scratch copy at build time, /repo contains no hooks", "enable": "sim/build.sh", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh replay FILE repeats a recorded violation. known_findings.json lists defects of the unchanged tree and the repairs made."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed:", [x["property"] for x in na])
