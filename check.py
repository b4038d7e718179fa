#!/opt/veriftools/pyvenv/bin/python
"""check.py <PROPERTY> [--thorough] [--replay FILE] [--only HARNESS] [-v]

Decides one property on the current working tree of /repo (VERIF_REPO overrides).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = os.environ.get("VERIF_REPO", "/repo")
    if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.hash_randomization == 0 and os.environ.get("PYVC_REEXEC") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYVC_REEXEC"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)

    from pyvc import harness as H, transform
    transform.install(repo)
    H.REPO_SRC = os.path.join(repo, "src")
    specs = json.load(open(os.path.join(VERIF, "specs", "index.json")))[a.prop]
    try:
        for m in specs["modules"]:
            importlib.import_module("specs." + m)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print(f"the code under contract could not be loaded: {e!r}")
        return 3
    if a.replay:
        return H.replay_file(a.replay)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    rep = H.run_property(a.prop, tier, seed, jobs=a.j, only=a.only, known=known, trusted=specs.get("trusted", []),
                         level=specs.get("level", "proof"), verbose=a.v)
    ev = rep.evidence()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print(f"{a.prop} [{tier}] obligations {c['obligations']} discharged {c['discharged']} (z3 {c['discharged_by']['z3']}, cvc5 {c['discharged_by']['cvc5']}, "
          f"evaluated {c['discharged_by']['evaluation_on_path']}) paths {c['paths']} solver {c['solver_s']} s; "
          f"bounded runs {c['evaluations']} clauses {c['clauses_evaluated']}; wall {ev['wall_s']} s")
    for u in rep.undecided[:15]:
        print("  undecided by proof:", u)
    for e, n in list(rep.conc.errors.items())[:10]:
        print("  bounded run undecided:", e, "x", n)
    for k in rep.known_hits:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if rep.crashes:
        for x in rep.crashes:
            print("  engine crash:", x)
    rdir = os.path.join(VERIF, "replays")
    if rep.violations:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for hn, label, payload, confirmed in rep.violations:
            if hn in seen:
                continue
            seen.add(hn)
            path = os.path.join(rdir, f"{a.prop}-{''.join(ch if ch.isalnum() else '_' for ch in hn)}.json")
            with open(path, "w") as f:
                json.dump({"property": a.prop, "harness": hn, "label": label, "confirmed_on_real_code": confirmed, "payload": payload,
                           "replay_cmd": f"python3-vt /verif/check.py {a.prop} --replay {path}"}, f, indent=1, default=str)
            print(f"  {hn}: clause '{label}' fails" + ("" if confirmed else " (refuted by the solver; counter-model did not replay)"))
            if confirmed:
                print("    ", str(payload.get("info"))[:400])
        # one line per property, a confirmed failure first
        hn, label, payload, confirmed = rep.violations[0]
        path = os.path.join(rdir, f"{a.prop}-{''.join(ch if ch.isalnum() else '_' for ch in hn)}.json")
        print(f"VIOLATION property={a.prop} replay={path}" + ("" if confirmed else " no-failing-input-found"))
        return 1
    if rep.crashes and not rep.conc.runs:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
