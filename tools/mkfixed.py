#!/usr/bin/env python3
"""Writes the fixed list of known_findings.json from the fix: commits of /repo (run by hand)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # words of the subject -> property
 "hash tree leaves": "C07", "building a hash tree": "C07", "ordering the blocks": "C07", "a ring signature needs members": "C01",
 "prime order group": "C02", "canonical form": "C02", "secret scalars": "C03", "hashing several rows": "C08", "receipts and of private": "C08",
 "monotonic": "C09", "importing a private key": "C06", "peers are only built": "C16", "repeated rule": "C12", "matching a constant": "C12",
 "explaining a mistake": "C12", "a root is built": "C12", "scanning for": "C12", "channels are tried": "C12", "replacements of a script": "C11",
 "included scripts are read": "C13", "single path": "C13", "includes itself": "C13", "prefix and suffix of a rule": "C12", "not block": "C12",
 "legal prefix are not": "C12", "combining the elements": "C10", "unclosed pattern": "C13", "ends before an optional": "C12", "recursion guard": "C12", "nanoseconds": "C08", "grammar of the base language": "C15",
}
PROP.update(json.load(open(os.path.join(HERE, "tools", "fixed_more.json"))) if os.path.exists(os.path.join(HERE, "tools", "fixed_more.json")) else {})
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = [v for k, v in PROP.items() if k in s]
    assert len(set(p)) == 1, (s, p)
    out.append(f"fixed: property={p[0]} {h} {s[5:]}")
f = os.path.join(HERE, "known_findings.json")
d = json.load(open(f)); d["fixed"] = out
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
