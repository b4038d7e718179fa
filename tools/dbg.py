"""Run one harness symbolically in-process and print the traceback of the first undecided path (development aid).
   dbg.py PROP HARNESS [n]"""
import importlib, json, os, sys, traceback
os.environ["PYTHONHASHSEED"] = "0"
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif")
from pyvc import core, harness as H, rt, transform
transform.install(os.environ.get("VERIF_REPO", "/repo"))
for m in json.load(open("/verif/specs/index.json"))[sys.argv[1]]["modules"]:
    importlib.import_module("specs." + m)
h = next(h for h in H.REGISTRY if h.name == sys.argv[2])
st = core.Stats()
work, n = [[]], 0
want = int(sys.argv[3]) if len(sys.argv) > 3 else 1
while work and n < 100000:
    ctx = core.SymCtx(work.pop(), st)
    core.CUR = ctx
    H._reset()
    try:
        with H._Quiet():
            h.fn(ctx)
    except core.PathEnd:
        pass
    except BaseException as e:
        core.CUR = None
        tb = traceback.format_exception(e)
        print("".join(tb[:6] + ["...\n"] + tb[-12:]) if len(tb) > 18 else "".join(tb))
        want -= 1
        if not want:
            break
    finally:
        core.CUR = None
    if st.failed:
        f = st.failed[0]
        print(f["label"], f["info"]); print("\n".join(f["pc"])); print("goal", f["goal"]); print("choices", f["model"].get("choices")); print(f["model"].get("in"))
        break
    n += 1
    work.extend(ctx.pending)
print("paths", n, "left", len(work), "obl", st.obligations, st.discharged, "q", st.queries, round(st.solver_s, 2))
