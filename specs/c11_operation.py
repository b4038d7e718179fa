"""C11: what a failing operation does to the script that runs it."""
import subprocess

from pyvc import rt, sym
from pyvc.harness import harness
from pyvc.sym import force
from specs import oplib as O

import fora
from fora.connectors.tunnel_dispatcher import RemoteOSError
from fora.operations import api
from fora.utils import FatalError

A = "fora.operations.api."
FUN = [A + "operation", A + "Operation.success", A + "Operation.failure", A + "Operation.initial_state", A + "Operation.final_state",
       A + "Operation.unchanged", "fora.utils.check_host_active", "fora.utils.print_process_error"]


def states(ctx, n):
    """Arbitrary state of one key."""
    return ctx.choice(n + " kind", ["text", "flag", "none"]), n


def value(ctx, st):
    k, n = st
    return ctx.str(n, dom=["a", "b", ""]) if k == "text" else ctx.bool(n) if k == "flag" else None


def run_op(ctx, w, behave, nested=False, **kw):
    """An operation with body `behave`, called by keyword or by position."""
    seen = []

    def op_fn(target, name=None, check=True, op=api.Operation.internal_use_only):
        seen.append((target, name, op))
        op.desc(target)
        return behave(op)
    fn = api.operation("test")(op_fn)
    how = ctx.choice("name and check are given", ["by keyword", "by position", "one by position"])
    name = ctx.choice("name", [None, "n"])
    check = ctx.choice("check", [True, False])
    if how == "by keyword":
        kk = {} if check is True and name is None and ctx.choice("check left out", [False, True]) else {"check": check, "name": name}
        o = ctx.outcome(rt.call, fn, "t", **kk)
    elif how == "by position":
        o = ctx.outcome(rt.call, fn, "t", name, check)
    else:
        o = ctx.outcome(rt.call, fn, "t", name, check=check)
    return o, check, name, seen


@harness("C11", "outcomes", functions=FUN, covers=["success", "failure", "stopped", "error"], enum=2500, samples=600, seconds=100)
def outcomes(ctx):
    w = O.World(ctx)
    O.setup(ctx, w)
    fora.args.debug = ctx.choice("--debug", [False, True])
    end = ctx.choice("operation", ["success", "failure", "OperationError", "command", "remote", "error", "nothing", "crash after states"])
    msg = ctx.str("message", dom=["it failed", "", "äö"])
    a, b = value(ctx, states(ctx, "initial")), value(ctx, states(ctx, "final"))
    made = {}
    cap = ctx.choice("captured", [True, False])
    exc = {"OperationError": lambda: api.OperationError(msg),
           "command": lambda: subprocess.CalledProcessError(3, ["x"], b"out\xff" if cap else None, b"err" if cap else None),
           "remote": lambda: RemoteOSError(msg="refused", errno=13, strerror="Permission denied"),
           "error": lambda: KeyError("k"), "crash after states": lambda: ValueError("v")}

    def behave(op):
        if end == "nothing":
            return None
        if end == "failure":
            made["r"] = op.failure(msg)
            return made["r"]
        if end in ("success", "crash after states"):
            op.initial_state(k=a)
            op.final_state(k=b)
        if end == "success":
            made["r"] = op.success()
            return made["r"]
        made["e"] = exc[end]()
        raise made["e"]
    o, check, name, seen = run_op(ctx, w, behave)
    ctx.ensure("the operation is executed once with its arguments", len(seen) == 1 and seen[0][0] == "t" and seen[0][1] == name, seen)
    if len(seen) == 1:
        ctx.ensure("the name reaches the operation", seen[0][2].name == name, seen)
    ok = o.returned and isinstance(o.value, api.OperationResult)
    if end == "success":
        ctx.cover("success")
        ctx.ensure("a successful result is returned", ok and o.value is made["r"] and o.value.success is True, o)
        if ok:
            same = (a is None and b is None) or (a is not None and b is not None and type(force(a)) is type(force(b)) and a == b)
            ctx.ensure("changed tells whether the states differ", sym.beq(o.value.changed, sym.neg(same)) if hasattr(sym, "beq") else bool(o.value.changed) != bool(same), (o, a, b))
            ctx.ensure("the states are reported", set(o.value.initial) == {"k"} and set(o.value.final) == {"k"} and o.value.initial["k"] is a and o.value.final["k"] is b, o)
    elif end in ("failure", "OperationError"):
        if check:
            ctx.cover("stopped")
            ctx.ensure("a failed operation stops the script", o.raised(api.OperationError), o)
            if o.raised(api.OperationError):
                ctx.ensure("the error carries the message", len(o.exc.args) == 1 and o.exc.args[0] == msg, o)
        else:
            ctx.cover("failure")
            ctx.ensure("without check a failed operation returns its failure", ok and o.value.success is False, o)
            if ok:
                ctx.ensure("a failure carries its message", o.value.failure_message == msg, o)
                ctx.ensure("a failure reports no change", o.value.changed is False, o)
    elif end == "nothing":
        ctx.ensure("an operation without result is an error", o.raised(api.OperationError), o)
    else:
        ctx.cover("error")
        ctx.ensure("any other error reaches the script unchanged", o.exc is made["e"], o)


@harness("C11", "needs an active host", functions=FUN[:1] + FUN[6:7], covers=["refused", "run"], enum=200, samples=50)
def active(ctx):
    w = O.World(ctx)
    O.setup(ctx, w)
    inv = ctx.choice("inventory", ["none", "loading", "loaded"])
    host = ctx.choice("host", [False, True])
    if inv == "none":
        fora.inventory = None
    elif inv == "loading":
        fora.inventory._is_initialized = False
    if not host:
        fora.host = None
    ran = []

    def behave(op):
        ran.append(1)
        op.initial_state(k=1)
        op.final_state(k=1)
        return op.success()
    o, check, name, seen = run_op(ctx, w, behave)
    if inv == "loaded" and host:
        ctx.cover("run")
        ctx.ensure("an operation on an active host runs", o.returned and ran == [1], o)
    else:
        ctx.cover("refused")
        ctx.ensure("an operation without an active host is refused", o.raised(FatalError), o)
        ctx.ensure("an operation without an active host does nothing", not seen and not w.runs and not w.log, seen)


@harness("C11", "state protocol", functions=FUN[1:6], covers=["refused", "accepted"], enum=3000, samples=300)
def protocol(ctx):
    """States are declared exactly once; a result needs both."""
    w = O.World(ctx)
    O.setup(ctx, w)
    steps = [ctx.choice(f"step {i}", ["initial", "final", "none"]) for i in range(3)]
    ask = ctx.choice("then", ["success", "unchanged", "changed", "failure"])
    got = {}

    def behave(op):
        n = {"initial": 0, "final": 0}
        for s in steps:
            if s == "none":
                continue
            r = ctx.outcome(rt.callm, op, s + "_state", k=s)
            n[s] += 1
            ctx.ensure("a state is declared at most once", r.returned == (n[s] == 1) and (r.returned or r.raised(api.OperationError)), (steps, r))
            if not r.returned:
                n[s] = 1
        both = n["initial"] and n["final"]
        if ask == "failure":
            return op.failure("f")
        r = ctx.outcome(rt.callm, op, ask, *(["k"] if ask == "changed" else []))
        if both:
            ctx.cover("accepted")
            ctx.ensure("both states decide", r.returned, r)
            if ask == "success":
                ctx.ensure("different states are a change", r.value.changed is True, r)
                return r.value
            ctx.ensure("comparison of the states", bool(r.value) == (ask == "changed"), r)
        else:
            ctx.cover("refused")
            ctx.ensure("a result without both states is refused", r.raised(api.OperationError), r)
        return op.failure("f")
    o, check, name, seen = run_op(ctx, w, behave)
    ctx.ensure("the outcome reaches the script", o.returned or o.raised(api.OperationError), o)


@harness("C11", "nested operations", functions=FUN[:6] + [A + "Operation.nested", A + "Operation.add_nested_result"], covers=["summed", "stopped"], enum=3000, samples=300)
def nested(ctx):
    """An operation composed of others: any failing part stops it; it changed iff some part did."""
    w = O.World(ctx)
    O.setup(ctx, w)
    ends = [ctx.choice(f"part {i}", ["same", "changed", "failure"]) for i in range(2)]
    parts = []

    def outer(target, name=None, check=True, op=api.Operation.internal_use_only):
        op.nested(True)
        op.desc("outer")
        for i, e in enumerate(ends):
            def inner(t, name=None, check=True, op=api.Operation.internal_use_only, e=e):
                op.desc(t)
                if e == "failure":
                    return op.failure("part failed")
                op.initial_state(v="a")
                op.final_state(v="a" if e == "same" else "b")
                return op.success()
            r = rt.call(api.operation("part"), inner)
            parts.append(i)
            res = rt.call(r, f"p{i}")
            op.add_nested_result(f"p{i}", res)
        return op.success()
    fn = api.operation("outer")(outer)
    o = ctx.outcome(rt.call, fn, "t")
    if "failure" in ends:
        ctx.cover("stopped")
        ctx.ensure("a failing part stops the composed operation", o.raised(api.OperationError), o)
        ctx.ensure("parts after the failing one are not executed", len(parts) == ends.index("failure") + 1, parts)
    else:
        ctx.cover("summed")
        ok = o.returned and o.value.success is True
        ctx.ensure("the composed operation succeeds", ok, o)
        if ok:
            ctx.ensure("it changed iff a part changed", bool(o.value.changed) == ("changed" in ends), o)
            ctx.ensure("it reports the states of its parts", o.value.initial == {f"p{i}": {"v": "a"} for i in range(2)} and
                       o.value.final == {f"p{i}": {"v": "a" if e == "same" else "b"} for i, e in enumerate(ends)}, o)
