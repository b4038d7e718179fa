"""The contracts every operation has to meet, instantiated per scenario (specs/ops_*.py)."""
import inspect

from pyvc import rt, sym
from pyvc.core import Unsupported
from pyvc.harness import harness
from fora.connectors.tunnel_dispatcher import RemoteOSError
from specs import oplib as O


class Scenario:
    """One operation call: its arguments, and - independently of the code - the state it asks for."""
    name = "?"
    functions = []
    assumes = []
    bound = None            # text: what is bounded
    covers_converge = ["success", "no change", "refused"]
    seconds = 100
    prove = True
    enum, samples = 300, 1500
    delegating = False
    refuses = True          # some requests are invalid
    settle = True           # has a steady state

    def __init__(self, ctx, w, conn, free=False):
        self.ctx, self.w, self.conn, self.free = ctx, w, conn, free

    # to be defined by scenarios
    def args(self):
        raise NotImplementedError

    def prepare(self):
        pass

    def valid(self):
        """The request itself is well-formed."""
        return True

    def applicable(self, before):
        """The machine's state admits the request."""
        return True

    def observe(self):
        """A copy of the part of the machine the request is about."""
        raise NotImplementedError

    def same(self, a, b):
        raise NotImplementedError

    def desired(self, before, after):
        raise NotImplementedError

    def steady(self, before):
        """Condition: already as asked for; None: such a request always acts."""
        raise NotImplementedError

    def describes(self, state, d, before):
        """Condition: the reported dictionary tells the state."""
        return True

    def frame(self, snap):
        """Condition: everything else is as it was."""
        return not [e for e in self.w.log if isinstance(e, str)]

    def call(self):
        return O.operate(self.ctx, self.fn, *self.pos, **self.kw)


def start(ctx, cls, faults, dry=False, diff=False, settings=None, free=False, prepare=True):
    w = O.World(ctx, faults=faults)
    if hasattr(cls, "settings"):
        settings = cls.settings(ctx)
    conn = O.setup(ctx, w, dry=dry, diff=diff, settings=settings)
    s = cls(ctx, w, conn, free=free)
    s.args()
    if not prepare:
        return s, None, w
    s.prepare()
    before = s.observe()
    return s, before, w


def converge(prop, cls):
    @harness(prop, f"{cls.name}: converges", functions=cls.functions, covers=cls.covers_converge, enum=cls.enum, samples=cls.samples, seconds=cls.seconds,
             assumes=cls.assumes, prove=cls.prove)
    def body(ctx):
        s, before, w = start(ctx, cls, faults=True)
        snap = w.snapshot()
        r = s.call()
        after = s.observe()
        if r.ok:
            ctx.cover("success")
            ctx.ensure("success means the requested state", s.valid() and s.desired(before, after), (before, after, w.log))
            if not w.log:
                ctx.cover("no change")
        elif s.valid() and s.applicable(before):
            ctx.ensure("a valid request on a working machine succeeds", w.environment, (r, w.log))
        else:
            ctx.cover("refused")
        ctx.ensure("nothing besides the managed state is changed", s.frame(snap), w.log)

    if not cls.settle:
        return

    @harness(prop, f"{cls.name}: idempotent", functions=cls.functions, covers=["steady"], enum=cls.enum, samples=cls.samples, seconds=cls.seconds,
             assumes=cls.assumes, prove=cls.prove)
    def idem(ctx):
        s, before, w = start(ctx, cls, faults=False)
        ctx.assume(s.valid())
        ctx.assume(s.applicable(before))
        st = s.steady(before)
        if st is None:
            return
        ctx.assume(st)
        ctx.cover("steady")
        r = s.call()
        ctx.ensure("a machine already in the requested state is a success", r.ok, r)
        ctx.ensure("a machine already in the requested state is reported unchanged", r.ok and sym.neg(r.value.changed), r)
        ctx.ensure("a machine already in the requested state is not modified", not w.log, w.log)


def _eq(ctx, a, b, depth=4):
    """Deep equality as a condition."""
    a, b = sym.force(a), sym.force(b)
    if type(a) is dict and type(b) is dict:
        if set(a) != set(b):
            return False
        return sym.conj(*[_eq(ctx, a[k], b[k], depth - 1) for k in a]) if a else True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return sym.conj(*[_eq(ctx, x, y, depth - 1) for x, y in zip(a, b)]) if a else True
    if a is None or b is None:
        return a is b
    return a == b


def dry(prop, cls):
    @harness(prop, f"{cls.name}: dry run", functions=cls.functions, covers=["dry", "refused"] if cls.covers_converge and "refused" in cls.covers_converge else ["dry"],
             enum=cls.enum, samples=cls.samples, seconds=cls.seconds, assumes=cls.assumes, prove=cls.prove)
    def body(ctx):
        s, before, w = start(ctx, cls, faults=False, dry=True, diff=ctx.choice("--diff", [False, True]))
        snap = w.snapshot()
        r = s.call()
        mid = s.observe()
        ctx.ensure("a dry run executes nothing that changes the machine", not w.log, w.log)
        ctx.ensure("a dry run changes nothing", sym.conj(s.same(before, mid), s.frame(snap)), (before, mid))
        O.rerun(w, dry=False)
        r2 = s.call()
        if r.ok:
            ctx.cover("dry")
        else:
            ctx.cover("refused")
        ctx.ensure("a dry run succeeds exactly when the real run would", r.ok == r2.ok, (r, r2, w.log))
        if r.ok and r2.ok:
            ctx.ensure("a dry run predicts whether the real run changes something", _eq(ctx, r.value.changed, r2.value.changed), (r, r2))
            ctx.ensure("a dry run predicts the states the real run reports", sym.conj(_eq(ctx, r.value.initial, r2.value.initial), _eq(ctx, r.value.final, r2.value.final)), (r, r2))

    @harness(prop, f"{cls.name}: dry run with failures", functions=cls.functions, enum=cls.enum, samples=cls.samples, seconds=cls.seconds,
             assumes=cls.assumes, prove=cls.prove)
    def faulty(ctx):
        s, before, w = start(ctx, cls, faults=True, dry=True)
        snap = w.snapshot()
        s.call()
        ctx.ensure("a dry run executes nothing that changes the machine", not w.log, w.log)
        ctx.ensure("a dry run changes nothing", sym.conj(s.same(before, s.observe()), s.frame(snap)))


def truthful(prop, cls):
    @harness(prop, f"{cls.name}: reports", functions=cls.functions, covers=["changed", "unchanged"] if cls.settle else ["changed"], enum=cls.enum, samples=cls.samples,
             seconds=cls.seconds, assumes=cls.assumes, prove=cls.prove)
    def body(ctx):
        s, before, w = start(ctx, cls, faults=True)
        r = s.call()
        after = s.observe()
        if w.faulted:
            ctx.ensure("a failed remote action is never reported as a success", not r.ok, (r, w.log))
        if not r.ok:
            return
        same = s.same(before, after)
        ch = r.value.changed
        if bool(ch):
            ctx.cover("changed")
            ctx.ensure("reported changed only if the machine changed", sym.neg(same), (before, after, r))
        else:
            ctx.cover("unchanged")
            ctx.ensure("reported unchanged only if the machine did not change", same, (before, after, r))
        ctx.ensure("the reported initial state is the state found", s.describes(before, r.value.initial, None), (before, r))
        ctx.ensure("the reported final state is the state left behind", s.describes(after, r.value.final, before), (after, r))


def refuse(prop, cls):
    @harness(prop, f"{cls.name}: refuses", functions=cls.functions, covers=["refused", "accepted"] if cls.refuses else ["accepted"], enum=cls.enum, samples=cls.samples, seconds=cls.seconds,
             assumes=cls.assumes, prove=cls.prove)
    def body(ctx):
        s, before, w = start(ctx, cls, faults=False, free=True)
        snap = w.snapshot()
        r = s.call()
        if not (s.valid() and s.applicable(before)):
            ctx.cover("refused")
            ctx.ensure("an invalid request or an unsuitable object is refused", not r.ok, (r, before))
            ctx.ensure("a refused request leaves the machine untouched", not w.log, w.log)
            ctx.ensure("a refused request changes nothing", sym.conj(s.same(before, s.observe()), s.frame(snap)))
        else:
            ctx.cover("accepted")
        ctx.ensure("no value given by the user is taken for an option of a command", not w.injected, w.runs and w.runs[-1].command)


def delegates(prop, cls):
    """The operation is its callee `save_content` on the right arguments (whose contract `upload_content` proves)."""
    @harness(prop, f"{cls.name}: delegates", functions=cls.functions, covers=["delegated", "refused"], enum=0, samples=0, seconds=cls.seconds, concrete=False,
             assumes=cls.assumes + ["save_content behaves as proved through upload_content (same property)"])
    def body(ctx):
        s, before, w = start(ctx, cls, faults=True, free=True, dry=ctx.choice("dry", [False, True]), prepare=False)
        calls = []

        def stub(f, *a, **k):
            try:
                b = inspect.signature(f).bind(*a, **k)
                b.apply_defaults()
                names = dict(b.arguments)
                if set(names) != {"op", "content", "dest", "mode", "owner", "group"}:
                    return NotImplemented
            except TypeError:
                return NotImplemented
            calls.append(names)
            op = names["op"]
            end = ctx.choice("save_content", ["success", "failure", "error"])
            if end == "error":
                w.faulted = True
                raise RemoteOSError(msg="refused", errno=13, strerror="Permission denied")
            if end == "failure":
                return op.failure("unsuitable")
            op.initial_state(exists=False)
            op.final_state(exists=True)
            s.result = op.success()
            return s.result
        rt.CONTRACTS[("fora.operations.utils", "save_content")] = stub
        s.result = None
        r = s.call()
        if not calls:
            ctx.cover("refused")
            if r.ok or w.log:
                raise Unsupported("does not delegate to save_content")
            ctx.ensure("a valid request is carried out", not s.well_formed() or w.faulted, r)
            return
        ctx.cover("delegated")
        c = calls[0]
        ctx.ensure("only well-formed requests are carried out", s.well_formed(), s.pos)
        ctx.ensure("carried out once", len(calls) == 1 and not w.log)
        ctx.ensure("the content is the one asked for", s.same_content(c["content"]), c)
        ctx.ensure("the destination is the one asked for", c["dest"] == s.path, c)
        for k in ("mode", "owner", "group"):
            ctx.ensure(f"the {k} is passed on", c[k] is s.kw.get(k) or _eq(ctx, c[k], s.kw.get(k)), c)
        ctx.ensure("the outcome is passed on", (r.ok and r.value is s.result) if s.result is not None else not r.ok, r)


def all_of(prop, check, scenarios):
    for c in scenarios:
        if c.delegating:
            delegates(prop, c)
            inner = type(c.__name__, (c,), {"prove": False})
            check(prop, inner)
        else:
            check(prop, c)
