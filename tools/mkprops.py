#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIG = "domain/cryptography/keys/signature/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None, level="exploration", technique=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  observe=observe or [], state=state or [], level=level, technique=technique, hook=hook))
exec(open(os.path.join(HERE, "tools", "props_list.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
NA = globals().get("NA", {})
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, "
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
  "hooks": {"guard": "go build -overlay (no change to /repo: instrumented copies of its sources are generated for each build)",
            "enable": "tools/instrument writes instrumented copies of /repo's working tree and an overlay file; run.sh builds the simulator with go build -overlay",
            "source_commits": []},
  "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/run.sh {p['id']}",
              "technique": TECH + p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in NA],
  "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
  "notes": "bash /verif/run.sh replay FILE re-executes a replay file and prints its trace."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
