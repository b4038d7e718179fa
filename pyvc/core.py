"""Path-complete VC generation: contexts, obligations, solver access."""
import linecache
import os
import random
import re
import subprocess
import tempfile
import time

import z3


class Abort(BaseException):
    """Base of everything the engine throws through the code under contract."""


class PathEnd(Abort):
    """The path is infeasible, or ends at a cut point."""


class Unsupported(Abort):
    """The code left the subset the verifier understands: undecided, never a violation."""


class Budget(Abort):
    """Exploration budget exhausted: undecided."""


_HERE = os.path.dirname(os.path.abspath(__file__))
CUR = None          # the active context (one per process at a time)


def cur():
    return CUR


class Stats:
    def __init__(self):
        self.obligations = 0        # VCs generated
        self.discharged = 0         # VCs proved (unsat)
        self.by_eval = 0            # of those: closed by evaluation on the path, no query
        self.by_z3 = 0
        self.by_cvc5 = 0
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.labels = {}            # label -> [generated, discharged]
        self.covers = {}
        self.failed = []            # dicts
        self.undecided = []         # strings
        self.inlined = set()

    def merge(self, o):
        for k in ("obligations", "discharged", "by_eval", "by_z3", "by_cvc5", "solver_s", "queries", "paths"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.labels.items():
            a = self.labels.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        self.failed += o.failed
        self.undecided += o.undecided
        self.inlined |= o.inlined


def to_z3bool(c):
    from . import sym
    if isinstance(c, sym.SymOpt):
        c = c.force()
    if isinstance(c, sym.SymBool):
        return c.z
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, sym.Sym):
        return sym.truth(c)
    return z3.BoolVal(bool(c))


class BaseCtx:
    symbolic = False

    def __init__(self):
        self.log = []
        self.notes = {}
        self.allow_hash = False

    # harness vocabulary common to both modes
    def outcome(self, fn, *a, **k):
        return Outcome.run(self, fn, *a, **k)


def check_fault(e):
    """Errors of the verifier itself (an operation its values or stand-ins do not have) are undecided, not behaviour of the code."""
    if isinstance(e, RecursionError):
        raise Unsupported("recursion limit") from None
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError, NameError)):
        return
    if isinstance(e, AttributeError) and getattr(e, "name", None) is not None:
        t = type(e.obj)
        if t.__module__.split(".")[0] in ("pyvc", "specs") and not getattr(t, "legit_missing", False):
            raise Unsupported(f"{t.__name__}.{e.name} is not modelled") from None
    m = str(e) if not any(_is_sym(x) for x in e.args) else ""
    if CUR is not None and CUR.symbolic and re.search(r"\bSym[A-Z]|\bLSet\b", m):
        raise Unsupported(f"native operation on a symbolic value: {type(e).__name__}: {m[:200]}") from None
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and tb.tb_frame.f_code.co_filename.startswith(_HERE) and os.path.basename(tb.tb_frame.f_code.co_filename) in ("sym.py", "core.py", "loops.py"):
        line = linecache.getline(tb.tb_frame.f_code.co_filename, tb.tb_lineno).strip()
        if not line.startswith("raise"):
            raise Unsupported(f"engine: {type(e).__name__}: {m[:200]} @ {line[:80]}") from None


class Outcome:
    """What a call did: returned a value or raised."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def returned(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or Exception)

    def __repr__(self):
        if self.exc is None:
            return f"returned {self.value!r}"
        return f"raised {type(self.exc).__name__}"

    @staticmethod
    def run(ctx, fn, *a, **k):
        try:
            return Outcome(value=fn(*a, **k))
        except Abort:
            raise
        except (Exception, SystemExit) as e:
            check_fault(e)
            return Outcome(exc=e)


def _is_sym(x):
    from . import sym
    return isinstance(x, sym.Sym)


# ---------------------------------------------------------------------------
class SymCtx(BaseCtx):
    """One symbolic path (deterministic re-execution along a decision prefix)."""
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=4000, deadline=None):
        super().__init__()
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", 7)
        self.timeout_ms = timeout_ms
        self.pc = []
        self.names = {}
        self.inputs = {}       # name -> z3 term / descriptor, for counter-models
        self.fns = {}
        self.deadline = deadline
        self.axioms_seen = set()
        self.steps = 0

    # -- solver
    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        if self.deadline and t > self.deadline:
            raise Budget("time budget of the harness exhausted")
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        if os.environ.get("PYVC_SLOW") and time.time() - t > float(os.environ["PYVC_SLOW"]):
            print("SLOW", round(time.time() - t, 2), r, [str(e).replace("\n", " ") for e in extra], "|", [str(e).replace("\n", " ") for e in self.pc[-8:]], flush=True, file=open("/tmp/slow.log","a"))
        return r, m

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, cond):
        z = z3.simplify(to_z3bool(cond))
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise PathEnd()
        self.add(z)
        if len(self.decisions) >= len(self.prefix):
            r, _ = self._check()
            if r == z3.unsat:
                raise PathEnd()

    def axiom(self, e):
        k = e.get_id()
        if k not in self.axioms_seen:
            self.axioms_seen.add(k)
            self.add(e)
            self.names.setdefault("__ax", []).append(e)   # keep alive

    # -- decisions
    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        self.steps += 1
        if self.steps > 20000:
            raise Budget("too many branches on one path")
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.add(z if d else z3.Not(z))
            return bool(d)
        rt, _ = self._check(z)
        if rt == z3.unsat:
            self.decisions.append(False)
            self.add(z3.Not(z))
            return False
        rf, _ = self._check(z3.Not(z))
        if rf == z3.unsat:
            self.decisions.append(True)
            self.add(z)
            return True
        self.pending.append(self.decisions + [False])
        self.decisions.append(True)
        self.add(z)
        return True

    def choose(self, n):
        """Demonic choice between n alternatives: every one is explored."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d
        for k in range(n - 1, 0, -1):
            self.pending.append(self.decisions + [k])
        self.decisions.append(0)
        return 0

    def must(self, cond):
        """Is cond implied by the path condition?"""
        z = z3.simplify(to_z3bool(cond))
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        r, _ = self._check(z3.Not(z))
        return r == z3.unsat

    # -- obligations
    def ensure(self, label, cond, info=None):
        st = self.stats
        z = z3.simplify(to_z3bool(cond))
        st.obligations += 1
        lab = st.labels.setdefault(label, [0, 0])
        lab[0] += 1
        if z3.is_true(z):
            st.discharged += 1
            st.by_eval += 1
            lab[1] += 1
            return True
        r, m = self._check(z3.Not(z))
        if r == z3.unsat:
            st.discharged += 1
            st.by_z3 += 1
            lab[1] += 1
            self.add(z)
            return True
        if r == z3.unknown:
            if self._cvc5(z3.Not(z)):
                st.discharged += 1
                st.by_cvc5 += 1
                lab[1] += 1
                self.add(z)
                return True
            st.undecided.append(f"{label}: solver unknown ({self.solver.reason_unknown()})")
            return False
        st.failed.append({"label": label, "model": self.model_values(m), "info": self._render(info),
                          "pc": [str(p)[:300] for p in self.pc[-25:]], "goal": str(z)[:600],
                          "log": [self._render(x) for x in self.log[-30:]], "prefix": list(self.decisions)})
        self.add(z)   # continue as if it held, to find further failures
        r, _ = self._check()
        if r == z3.unsat:
            raise PathEnd()
        return False

    def _cvc5(self, negated):
        s = z3.Solver()
        for p in self.pc:
            s.add(p)
        s.add(negated)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            t = time.time()
            out = subprocess.run(["cvc5", "--strings-exp", "--tlimit=10000", f.name], capture_output=True, text=True, timeout=20)
            self.stats.solver_s += time.time() - t
            return out.stdout.strip().startswith("unsat")
        except Exception:
            return False
        finally:
            try:
                os.unlink(f.name)
            except OSError:
                pass

    def _render(self, x):
        try:
            return repr(x)[:400]
        except BaseException as e:   # noqa
            return f"<{type(x).__name__}>"

    def cover(self, label):
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    def model_values(self, m):
        from . import sym
        out = {}
        if m is None:
            return out
        for n, t in self.inputs.items():
            try:
                v = m.eval(t, model_completion=True)
                out[n] = sym.from_z3(v)
            except Exception:
                pass
        fns = {}
        for n, f in self.fns.items():
            try:
                fi = m[f]
                if fi is None:
                    continue
                ent = [[[sym.from_z3(e.arg_value(i)) for i in range(e.num_args())], sym.from_z3(e.value())] for e in [fi.entry(j) for j in range(fi.num_entries())]]
                fns[n] = {"entries": ent, "else": sym.from_z3(fi.else_value())}
            except Exception:
                pass
        return {"in": out, "fn": fns, "choices": dict(self.notes)}

    # -- inputs
    def _fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}!{k}"

    def str(self, name, dom=None, free=None):
        from . import sym
        n = self._fresh(name)
        z = z3.String(n)
        self.inputs[n] = z
        return sym.SymStr((sym.Atom(z),))

    def bytes(self, name, dom=None):
        from . import sym
        n = self._fresh(name)
        z = z3.String(n)
        self.inputs[n] = z
        return sym.SymBytes((sym.Atom(z),))

    def int(self, name, lo=None, hi=None, dom=None):
        from . import sym
        n = self._fresh(name)
        z = z3.Int(n)
        self.inputs[n] = z
        if lo is not None:
            self.add(z >= lo)
        if hi is not None:
            self.add(z <= hi)
        return sym.SymInt(z)

    def bool(self, name):
        from . import sym
        n = self._fresh(name)
        z = z3.Bool(n)
        self.inputs[n] = z
        return sym.SymBool(z)

    def obj(self, name, dom=None):
        from . import sym
        n = self._fresh(name)
        return sym.SymObj(z3.Const(n, sym.OBJ))

    def opt(self, name, mk):
        from . import sym
        n = self._fresh(name + "?none")
        z = z3.Bool(n)
        self.inputs[n] = z
        return sym.SymOpt(z, mk)

    def choice(self, name, alts):
        n = self._fresh(name)
        i = self.choose(len(alts))
        self.notes[n] = i
        return alts[i]

    def fn(self, name, kind, *args, dom=None):
        """An unknown function of the environment (uninterpreted): kind in bool/int/str."""
        from . import sym
        zs = [sym.lift(a) for a in args]
        rng = {"bool": z3.BoolSort(), "int": z3.IntSort(), "str": z3.StringSort(), "bytes": z3.StringSort()}[kind]
        key = (name, tuple(z.sort().name() for z in zs))
        f = self.fns.get(name)
        if f is None:
            f = z3.Function(name, *[z.sort() for z in zs], rng)
            self.fns[name] = f
        app = f(*zs)
        if kind == "bool":
            return sym.SymBool(app)
        if kind == "int":
            return sym.SymInt(app)
        if kind == "bytes":
            return sym.SymBytes((sym.Atom(app),))
        return sym.SymStr((sym.Atom(app),))


class Failure(Exception):
    """A contract clause evaluated to False on a concrete execution."""


class ConcreteCtx(BaseCtx):
    """The same harness on ordinary values.  `source` supplies every input."""
    symbolic = False

    def __init__(self, source):
        super().__init__()
        self.source = source
        self.names = {}
        self.failures = []
        self.evals = 0
        self.memo = {}
        self.trace = {}
        self.covers = {}

    def _fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}!{k}"

    def _pick(self, n, dom):
        v = self.source.pick(n, dom)
        self.trace[n] = v
        return v

    STR = ["", "a", "b", "root", "x y", "-r", "/tmp/x", "ä€", "0", "007", "a\nb", "\x00"]
    BYT = [b"", b"a", b"\x00\xff\xfe", b"hello\n", b"x" * 300]
    INT = [0, 1, 2, 7, 255, 1000, 65534, -1, 2 ** 31, 2 ** 40]

    def str(self, name, dom=None, free=None):
        return self._pick(self._fresh(name), dom or self.STR)

    def bytes(self, name, dom=None):
        return self._pick(self._fresh(name), dom or self.BYT)

    def int(self, name, lo=None, hi=None, dom=None):
        d = [x for x in (dom or self.INT) if (lo is None or x >= lo) and (hi is None or x <= hi)]
        return self._pick(self._fresh(name), d or [lo if lo is not None else hi])

    def bool(self, name):
        return self._pick(self._fresh(name), [False, True])

    def obj(self, name, dom=None):
        return self._pick(self._fresh(name), dom or ["o1", "o2", 3, None])

    def opt(self, name, mk):
        n = self._fresh(name + "?none")
        if self._pick(n, [True, False]):
            return None
        return mk()

    def choice(self, name, alts):
        n = self._fresh(name)
        i = self.source.pick(n, list(range(len(alts))))
        self.trace[n] = i
        return alts[i]

    def choose(self, n):
        return self.source.pick(self._fresh("__choose"), list(range(n)))

    def fn(self, name, kind, *args, dom=None):
        key = (name, args)
        if key not in self.memo:
            d = dom or {"bool": [True, False], "int": self.INT, "str": self.STR, "bytes": self.BYT}[kind]
            v = self.source.pick_fn(name, args, d)
            self.memo[key] = v
            self.trace[f"{name}{args!r}"] = v
        return self.memo[key]

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def axiom(self, e):
        pass

    def must(self, cond):
        return bool(cond)

    def branch(self, z):
        return bool(z)

    def ensure(self, label, cond, info=None):
        self.evals += 1
        if not cond:
            try:
                ri = repr(info)[:2000]
            except Exception:
                ri = "<unprintable>"
            self.failures.append({"label": label, "info": ri})
            return False
        return True

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1


class RandomSource:
    """Random picks; in half of the runs leaning towards the first value of each domain, in half without failures."""

    def __init__(self, rng):
        self.rng = rng
        self.lean = rng.random() < 0.5
        self.faults = rng.choice([0, 0, 0.1, 0.5])      # how often a remote action fails

    def pick(self, name, dom):
        if "fails?" in name and len(dom) == 2:
            return dom[1] if self.faults and self.rng.random() < self.faults else dom[0]
        if self.lean and self.rng.random() < 0.5:
            return dom[0]
        return dom[self.rng.randrange(len(dom))]

    def pick_fn(self, name, args, dom):
        return self.pick(name, dom)


class EnumSource:
    """Depth-first enumeration of all picks (bounded exhaustive)."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pending = []

    def pick(self, name, dom):
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(len(dom) - 1, 0, -1):
                self.pending.append(self.taken + [j])
        self.taken.append(k)
        return dom[k]

    def pick_fn(self, name, args, dom):
        return self.pick(name, dom)


class ModelSource:
    """Inputs of a counter-model; anything the model does not fix is drawn at random."""

    def __init__(self, model, rng):
        self.ins = model.get("in", {})
        self.fns = model.get("fn", {})
        self.choices = model.get("choices", {})
        self.rng = rng

    def pick(self, name, dom):
        if name in self.choices:
            k = self.choices[name]
            return dom[k] if k < len(dom) else dom[0]
        if name in self.ins:
            v = self.ins[name]
            if dom and isinstance(dom[0], bytes) and isinstance(v, str):
                return v.encode("utf-8", "surrogatepass")
            if dom and type(v) is not type(dom[0]) and not (isinstance(v, bool) and isinstance(dom[0], bool)):
                return dom[self.rng.randrange(len(dom))]
            return v
        return dom[self.rng.randrange(len(dom))]

    def pick_fn(self, name, args, dom):
        f = self.fns.get(name)
        if f is None:
            return self.pick(name, dom)
        for a, v in f["entries"]:
            if list(args) == a:
                return self._c(v, dom)
        return self._c(f["else"], dom)

    def _c(self, v, dom):
        if dom and isinstance(dom[0], bytes) and isinstance(v, str):
            return v.encode("utf-8", "surrogatepass")
        if dom and v not in dom and not isinstance(dom[0], (int, str)):
            return dom[0]
        return v


class GuidedSource(RandomSource):
    """The decisions (choices and flags) of a counter-model, values from the declared domains."""

    def __init__(self, model, rng):
        super().__init__(rng)
        self.fixed = dict(model.get("choices", {}))
        self.flags = {k: v for k, v in model.get("in", {}).items() if isinstance(v, bool)}

    def pick(self, name, dom):
        if self.rng.random() < 0.95:
            if name in self.fixed and self.fixed[name] < len(dom):
                return dom[self.fixed[name]]
            if name in self.flags and isinstance(dom[0], bool):
                return self.flags[name]
        return super().pick(name, dom)


class ReplaySource:
    def __init__(self, picks):
        self.picks = list(picks)
        self.i = 0

    def pick(self, name, dom):
        n, v = self.picks[self.i]
        self.i += 1
        return v

    def pick_fn(self, name, args, dom):
        return self.pick(name, dom)


class RecordingSource:
    def __init__(self, inner):
        self.inner = inner
        self.picks = []

    def pick(self, name, dom):
        v = self.inner.pick(name, dom)
        self.picks.append((name, v))
        return v

    def pick_fn(self, name, args, dom):
        v = self.inner.pick_fn(name, args, dom)
        self.picks.append((name, v))
        return v
