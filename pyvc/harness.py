"""Proof harnesses (function contracts) and the runner."""
import ast
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import core, rt
from .core import Abort, Budget, ConcreteCtx, EnumSource, GuidedSource, ModelSource, PathEnd, RandomSource, RecordingSource, ReplaySource, Stats, SymCtx, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


REPO_SRC = None     # set by check.py


class Hang(BaseException):
    pass


class Harness:
    def __init__(self, fn, prop, name, functions=(), prove=True, covers=(), samples=300, enum=600, seconds=60,
                 assumes=(), concrete=True, note="", thorough=10):
        self.fn, self.prop, self.name = fn, prop, name
        self.functions = list(functions)
        self.prove, self.covers, self.samples, self.enum, self.seconds = prove, list(covers), samples, enum, seconds
        self.assumes, self.concrete, self.note, self.thorough = list(assumes), concrete, note, thorough


REGISTRY = []


def harness(prop, name=None, **kw):
    def deco(fn):
        REGISTRY.append(Harness(fn, prop, name or fn.__name__, **kw))
        return fn
    return deco


def _reset():
    rt.EXTERNALS.clear()
    rt.CONTRACTS.clear()
    rt.LOOPS.clear()
    rt.ALLOW_REAL.clear()


class _Quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        # a terminal that can show utf-8, and like Python's own streams refuses anything else on stdout
        self.f, self.g = open(os.devnull, "w", encoding="utf-8", errors="strict"), open(os.devnull, "w", encoding="utf-8", errors="backslashreplace")
        sys.stdout, sys.stderr = self.f, self.g

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.f.close()
        self.g.close()


def prove(h, seconds, max_paths=200000, exclude=None):
    """All paths of the harness; returns Stats."""
    st = Stats()
    deadline = time.time() + seconds
    work = [[]]
    completed = 0
    while work:
        prefix = work.pop()
        if time.time() > deadline or st.paths >= max_paths:
            st.undecided.append(f"budget: {len(work) + 1} paths left unexplored after {st.paths} paths")
            break
        ctx = SymCtx(prefix, st, deadline=deadline + 5)
        core.CUR = ctx
        _reset()
        try:
            with _Quiet():
                h.fn(ctx)
            completed += 1
        except PathEnd:
            pass
        except Unsupported as e:
            st.undecided.append(f"unsupported: {e}")
            if len(st.undecided) > 20:
                break
        except Budget as e:
            st.undecided.append(f"budget: {e}")
            break
        except Abort as e:
            st.undecided.append(f"aborted: {e!r}")
        except RecursionError:
            st.undecided.append("unsupported: recursion limit")
        except Exception as e:   # the harness or engine tripped: undecided
            st.undecided.append(f"engine: {type(e).__name__}: {str(e)[:200]} @ {traceback.extract_tb(e.__traceback__)[-1]}")
            if len(st.undecided) > 20:
                break
        finally:
            core.CUR = None
            _reset()
        st.paths += 1
        work.extend(ctx.pending)
        if len(st.failed) > 25:
            st.undecided.append("stopped after 25 refuted obligations")
            break
    if completed == 0 and not st.failed:
        st.undecided.append("vacuous: no path reached the end of the harness")
    if st.obligations == 0:
        st.undecided.append("vacuous: no obligation generated")
    for c in h.covers:
        if not st.covers.get(c):
            st.undecided.append(f"vacuous: cover point '{c}' unreachable")
    return st


def _alarm(sig, frm):
    raise Hang()


# the public fields of what requests and operations return
RESULTS = {"StatResult": {"type", "mode", "owner", "group", "size", "mtime", "ctime", "sha512sum"}, "CompletedRemoteCommand": {"stdout", "stderr", "returncode"},
           "UserEntry": {"name", "uid", "group", "gid", "groups", "password_hash", "gecos", "home", "shell"}, "GroupEntry": {"name", "gid", "members"},
           "OperationResult": {"success", "changed", "initial", "final", "failure_message"}}


def run_concrete(h, source, limit=20):
    """One concrete execution of the harness. Returns (ctx, recording source, error)."""
    rec = RecordingSource(source)
    ctx = ConcreteCtx(rec)
    core.CUR = ctx
    _reset()
    err = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with _Quiet():
            h.fn(ctx)
    except PathEnd:
        pass
    except Unsupported as e:
        err = f"unsupported: {e}"
    except Hang:
        ctx.failures.append({"label": "terminates", "info": f"no result within {limit} s"})
    except Abort as e:
        err = repr(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = f"harness error: {type(e).__name__}: {str(e)[:300]} @ {tb[-1]}"
        try:
            core.check_fault(e)
        except Unsupported as u:
            err = f"unsupported: {u}"
            e = NotImplementedError()
        if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__name__ in RESULTS and type(e.obj).__module__.startswith("fora.") and e.name in RESULTS[type(e.obj).__name__]:
            ctx.failures.append({"label": "results have all their fields", "info": f"{type(e.obj).__name__} has no {e.name}"})
        last = [f for f in tb if not f.filename.startswith(os.path.join(VERIF, "pyvc"))][-1:]
        if last and REPO_SRC and last[0].filename.startswith(REPO_SRC) and not isinstance(e, (NotImplementedError, RecursionError)):
            # a call the specification makes unconditionally, and which therefore has to succeed, failed inside the code
            ctx.failures.append({"label": "no unexpected error", "info": err})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        core.CUR = None
        _reset()
    return ctx, rec, err


class Concrete:
    def __init__(self):
        self.runs = 0
        self.evals = 0
        self.distinct = set()
        self.failures = []
        self.errors = {}
        self.samples = []
        self.exhaustive = False
        self.covers = {}

    def take(self, h, ctx, rec, err):
        self.runs += 1
        self.evals += ctx.evals
        for k, v in ctx.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        if err:
            self.errors[err] = self.errors.get(err, 0) + 1
        try:
            key = repr([v for _, v in rec.picks])
        except Exception:
            key = str(self.runs)
        if ctx.evals:
            self.distinct.add(hash(key))
            if len(self.samples) < 3:
                self.samples.append({"harness": h.name, "inputs": [[n, repr(v)[:120]] for n, v in rec.picks[:25]]})
        for f in ctx.failures:
            self.failures.append({"harness": h.name, "label": f["label"], "info": f["info"], "picks": [[n, repr(v)] for n, v in rec.picks]})


def concrete(h, seed, tier, seconds, failed_models=()):
    out = Concrete()
    rng = random.Random(f"{seed}:{h.prop}:{h.name}")
    deadline = time.time() + seconds
    # 1. counter-models of refuted obligations
    for m in failed_models:
        for _ in range(12):
            out.take(h, *run_concrete(h, ModelSource(m, rng)))
            if out.failures:
                return out
    mult = h.thorough if tier == "thorough" else 1
    # 2. bounded exhaustive enumeration (depth-first over the declared domains)
    n, work = 0, [[]]
    limit = h.enum * mult
    while work and n < limit and time.time() < deadline:
        src = EnumSource(work.pop())
        out.take(h, *run_concrete(h, src))
        work.extend(src.pending)
        n += 1
        if len(out.failures) > 10:
            return out
    out.exhaustive = not work
    # 3. random samples
    if not out.exhaustive:
        for _ in range(h.samples * mult):
            if time.time() > deadline:
                break
            out.take(h, *run_concrete(h, RandomSource(rng)))
            if len(out.failures) > 10:
                return out
    return out


def _job(args):
    kind, idx, seed, tier = args
    h = REGISTRY[idx]
    t = time.time()
    mult = 6 if tier == "thorough" else 1
    res = {"harness": h.name, "kind": kind}
    try:
        models = []
        if kind == "prove":
            st = prove(h, h.seconds * mult)
            res["stats"] = st
            models = [f["model"] for f in st.failed][:8]
            if models and h.concrete:
                c = Concrete()
                rng = random.Random(seed)
                for m in models:
                    for _ in range(15):
                        c.take(h, *run_concrete(h, ModelSource(m, rng)))
                        if c.failures:
                            break
                    if c.failures:
                        break
                t2 = time.time()
                while not c.failures and time.time() - t2 < 25 and c.runs < 20000:
                    c.take(h, *run_concrete(h, GuidedSource(models[c.runs % len(models)], rng)))
                res["replayed"] = c.failures[:1]
        else:
            res["concrete"] = concrete(h, seed, tier, h.seconds * mult)
    except BaseException as e:
        res["crash"] = f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}"
    res["wall"] = time.time() - t
    return res


def run_property(prop, tier="quick", seed=1, jobs=None, only=None, known=(), trusted=(), level="proof", technique="", verbose=False):
    t0 = time.time()
    hs = [(i, h) for i, h in enumerate(REGISTRY) if h.prop == prop and (only is None or only in h.name)]
    tasks = []
    for i, h in hs:
        if h.prove:
            tasks.append(("prove", i, seed, tier))
    for i, h in hs:
        if h.concrete:
            tasks.append(("concrete", i, seed, tier))
    jobs = jobs or min(8, os.cpu_count() or 4)
    results = []
    if jobs == 1:
        results = [_job(t) for t in tasks]
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(jobs, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_job, tasks, chunksize=1):
                results.append(r)
                if verbose:
                    print(f"  [{r['kind']}] {r['harness']} {r['wall']:.1f}s" + (" CRASH " + r["crash"] if "crash" in r else ""), flush=True)
    return Report(prop, tier, seed, hs, results, time.time() - t0, known, trusted, level)


class Report:
    def __init__(self, prop, tier, seed, hs, results, wall, known, trusted, level):
        self.prop, self.tier, self.seed, self.wall, self.level = prop, tier, seed, wall, level
        self.hs = [h for _, h in hs]
        byname = {h.name: h for h in self.hs}
        self.total = Stats()
        self.per = {}
        self.violations = []      # (harness, label, payload, confirmed)
        self.undecided = []
        self.crashes = []
        conc_fail = {}
        self.conc = Concrete()
        self.exhaustive = True
        self.evals_by = {}
        for r in results:
            if "crash" in r:
                self.crashes.append(f"{r['kind']} {r['harness']}: {r['crash']}")
                continue
            if r["kind"] == "concrete":
                c = r["concrete"]
                self.conc.runs += c.runs
                self.conc.evals += c.evals
                self.conc.distinct |= {(r["harness"], d) for d in c.distinct}
                if len(self.conc.samples) < 12:
                    self.conc.samples += c.samples[:2]
                self.conc.errors.update({f"{r['harness']}: {k}": v for k, v in c.errors.items()})
                self.exhaustive &= c.exhaustive
                self.evals_by[r["harness"]] = {"runs": c.runs, "distinct": len(c.distinct), "clauses_evaluated": c.evals, "exhaustive": c.exhaustive,
                                               "undecided_runs": sum(c.errors.values())}
                for f in c.failures:
                    conc_fail.setdefault(r["harness"], []).append(f)
        for r in results:
            if "crash" in r or r["kind"] != "prove":
                continue
            st = r["stats"]
            self.total.merge(st)
            self.per[r["harness"]] = {"paths": st.paths, "obligations": st.obligations, "discharged": st.discharged,
                                      "solver_s": round(st.solver_s, 3), "refuted": len(st.failed), "undecided": st.undecided[:5],
                                      "proved": not st.failed and not st.undecided and st.obligations > 0}
            for u in st.undecided[:5]:
                self.undecided.append(f"{r['harness']}: {u}")
            if st.failed:
                for f in r.get("replayed", []):
                    conc_fail.setdefault(r["harness"], []).insert(0, f)
                if r["harness"] not in conc_fail:
                    self.violations.append((r["harness"], st.failed[0]["label"], {"obligation": st.failed[0], "all_failed": [f["label"] for f in st.failed]}, False))
        for hn, fs in conc_fail.items():
            seen = set()
            for f in fs:
                if f["label"] in seen:
                    continue
                seen.add(f["label"])
                self.violations.append((hn, f["label"], f, True))
        self.violations.sort(key=lambda v: not v[3])
        self.known_hits = []
        keep = []
        for v in self.violations:
            k = next((k for k in known if k["property"] == prop and k["harness"] == v[0] and k["label"] == v[1]
                      and all(s in json.dumps(v[2]) for s in k.get("match", []))), None)
            if k:
                self.known_hits.append(k)
            else:
                keep.append(v)
        self.violations = keep
        self.functions = sorted({f for h in self.hs for f in h.functions})
        self.trusted = list(trusted)
        self.assumes = sorted({a for h in self.hs for a in h.assumes})

    def evidence(self):
        proved = [h for h, p in self.per.items() if p["proved"]]
        bounded_only = [h.name for h in self.hs if not h.prove]
        cov = {
            "obligations": self.total.obligations,
            "discharged": self.total.discharged,
            "checker_cmd": f"python3-vt /verif/check.py {self.prop}",
            "trusted_base": self.trusted,
            "functions_under_contract": self.functions,
            "repo_functions_executed_symbolically": sorted(self.total.inlined),
            "discharged_by": {"z3": self.total.by_z3, "cvc5": self.total.by_cvc5, "evaluation_on_path": self.total.by_eval},
            "solver_s": round(self.total.solver_s, 2),
            "solver_queries": self.total.queries,
            "paths": self.total.paths,
            "harnesses_proved": sorted(proved),
            "harnesses_undecided_by_proof_bounded_result_stands": sorted(h for h, p in self.per.items() if not p["proved"]),
            "harnesses_bounded_only": bounded_only,
            "per_harness": self.per,
            "labels": {k: v for k, v in sorted(self.total.labels.items())},
            "undecided": self.undecided[:40],
            "evaluations": self.conc.runs,
            "distinct_nontrivial": len(self.conc.distinct),
            "clauses_evaluated": self.conc.evals,
            "rule": "each evaluation runs the same harness on the real code with concrete inputs drawn from the declared domains (depth-first enumeration, then VERIF_SEED-seeded random); distinct = distinct input vectors; non-trivial = at least one contract clause was evaluated",
            "bounded": self.evals_by,
            "bounded_undecided": dict(list(self.conc.errors.items())[:20]),
            "samples": self.conc.samples[:8],
            "exhaustive": self.exhaustive,
        }
        return {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
                "assumptions": self.assumes, "wall_s": round(self.wall, 2), "violations": len(self.violations)}


def replay_file(path):
    d = json.load(open(path))
    h = next(h for h in REGISTRY if h.name == d["harness"])
    if "picks" not in d["payload"]:
        print(json.dumps(d["payload"], indent=1))
        return 2
    picks = [(n, ast.literal_eval(v)) for n, v in d["payload"]["picks"]]
    ctx, rec, err = run_concrete(h, ReplaySource(picks))
    print("inputs:")
    for n, v in picks:
        print("  ", n, "=", repr(v))
    if err:
        print("error:", err)
    for f in ctx.failures:
        print("FAILED clause:", f["label"], "--", f["info"])
    return 1 if ctx.failures else 0
