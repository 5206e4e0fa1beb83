#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, M = [], []
T = "buildcc/lib/target/"
S = "buildcc/schema/"


def prop(pid, title, statement, over, text, why, files, mech, tech, note, level="model_checking"):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "hook_needed": None}})
    M.append({"property": pid, "quick_cmd": f"python3 bin/check.py {pid} quick",
              "thorough_cmd": f"python3 bin/check.py {pid} thorough",
              "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": level, "level_note": note})


HIST = ("TLA+ history generator (TLC) replayed through the real library on a simulated toolchain; recorded traces "
        "validated by TLC against the BuildMon specification")
NOTE = ("Every history of the stated bounded families (sampled by seed in the quick tier) is executed by the real code "
        "and its trace is checked event by event; trusts the simulated toolchain, which stands in for the compiler "
        "processes, and TLC.")
API = ("TLA+ specification of the interface explored by TLC (exhaustively within bounds, and by random behaviours beyond them); "
       "every behaviour replayed in the real library and each answer compared with the specification's")
APINOTE = ("Every call sequence within the stated bounds (sampled by seed in the quick tier) is carried out by the real code and "
           "each result compared with the specification; larger ones are sampled. Trusts the harness that maps actions to calls.")

exec(open(os.path.join(V, "bin", "propdefs.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks: the harness links its own process layer and interposes libc calls",
                     "source_commits": []},
           "checks": M, "not_applicable": [], "notes": NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
