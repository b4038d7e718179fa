"""Regenerates MANIFEST.json from specs/index.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(f"{V}/specs/index.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
checks, na = [], []
for p in props:
    e = idx.get(p["id"])
    if e is None or "not_applicable" in e:
        na.append({"property": p["id"], "reason": e["not_applicable"]})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": f"python3-vt /verif/check.py {p['id']}",
                   "thorough_cmd": f"python3-vt /verif/check.py {p['id']} --thorough",
                   "technique": e.get("technique", "contracts on the repository's functions, verification conditions generated from /repo's source by symbolic execution of every path, discharged by z3/cvc5"),
                   "level": e.get("level", "proof"), "level_note": e["note"]})
json.dump({"version": 1, "setup_cmd": "python3-vt /verif/tools/selftest.py",
           "hooks": {"guard": "none", "enable": "no hooks were added to /repo; the checks load its modules through an import hook living in /verif", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
