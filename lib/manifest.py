"""Writes MANIFEST.json (run by hand when a check is added)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+/TLC: recorded answers of the real server validated as behaviours of the traveller specification"
NOTE = ("Every recorded answer is judged by TLC against the specification (exhaustive over admissible journeys of the recorded "
        "network); networks and requests are seeded samples. Trusts the recorder's projection, TLC, and the OSRM table stand-in.")
CHECKS = {p: (TV, "model_checking", NOTE) for p in
          ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C16", "C19")}
EXTRA = os.path.join(VERIF, "lib", "manifest_extra.json")
if os.path.exists(EXTRA):
    CHECKS.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
hooks = {"guard": "TRROUTING_VERIF", "enable": "lib/build.py compiles /repo with -DTRROUTING_VERIF and links lib/hook.cpp", "source_commits": []}
HC = os.path.join(VERIF, "lib", "hook_commits.txt")
if os.path.exists(HC):
    hooks["source_commits"] = open(HC).read().split()
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": hooks,
     "checks": [{"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n}
                for p, (t, l, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in
                        (f"C{i:02d}" for i in range(1, 21)) if p not in CHECKS]}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
