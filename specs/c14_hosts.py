"""C13/C14: instanciate_host, for any number of groups in any order: which modules are loaded, from which variables each
one starts, and when the changes of a variable are a conflict.  The closure that records changes is verified on its own
("recording a change"), and replaced by its contract in "modules of a host"."""
import copy
import inspect
import types

import z3

from pyvc import graphs, rt, sym
from pyvc.core import PathEnd
from pyvc.graphs import Nodes, Unsupported, World
from pyvc.harness import harness
from pyvc.rt import UNDEF
from specs.c13_inventory import I

import fora.inventory_wrapper as iw

M = "fora.inventory_wrapper"
RECORD = (M, "InventoryWrapper.instanciate_host.<locals>.record_variable_change")
SEES = ["the closure record_variable_change reaches the history and the conflicts of its host only (one dict, one list)"]


class Poison:
    """A value left over from an earlier iteration: not to be used."""

    def __getattr__(self, n):
        raise Unsupported("a value left over from an earlier iteration is used")


def cells(f):
    """The history and the list of conflicts of the closure."""
    vs = [c.cell_contents for c in f.__closure__ or ()]
    h, c = [v for v in vs if type(v) is dict], [v for v in vs if type(v) is list]
    if len(h) != 1 or len(c) != 1:
        raise Unsupported("state of record_variable_change")
    return h[0], c[0]


def arguments(f, a, kw):
    b = inspect.signature(f).bind(*a, **kw)
    b.apply_defaults()
    vs = list(b.arguments.values())
    if len(vs) != 5:
        raise Unsupported("arguments of record_variable_change")
    return vs


class Value:
    """Some value of a variable."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f"Value({self.tag})"


class Items:
    """The variables of a module: `items()` is only looped over; the tracked variable x is one of them iff `has`."""

    def __init__(self, s, owner, has):
        self.s, self.owner, self.has = s, owner, has

    def items(self):
        return self

    def sym_loop(self, lid, reader, names, lc):
        return ItemsLoop(self, reader, names)

    def __iter__(self):
        raise Unsupported("native iteration of unknown variables")

    def __getattr__(self, n):
        raise Unsupported(f"variables of a module: {n}")


class ItemsLoop:
    cut = True

    def __init__(self, items, reader, names):
        self.i, s = items, items.s
        entry = reader()
        self.vals = {n: UNDEF if entry.get(n, UNDEF) is UNDEF else Poison() for n in names}
        self.mode = s.w.ctx.choose(2)

    def value(self, n):
        return self.vals[n]

    def __iter__(self):
        i = self.i
        s, w = i.s, i.s.w
        if self.mode == 1:
            s.recorded_all(i)
            return
        tracked = w.ctx.choose(2)
        if tracked:
            w.add(i.has)
            w.feasible()
        name, value = "x" if tracked else "another", Value("of the module")
        s.calls = []
        yield name, value
        s.each(i, name, value)
        raise PathEnd()


class Loaded:
    """A group or host module that has been executed."""

    def __init__(self, s, z, initializer, kind):
        d = self.__dict__
        d["s"], d["z"], d["name"], d["initializer"], d["kind"] = s, z, sym.SymObj(z), initializer, kind

    def exported_variables(self):
        return Items(self.s, self, self.s.has(self.z))

    def definition_file(self):
        return "somewhere"

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __getattr__(self, n):
        raise Unsupported(f"attribute {n} of a loaded module")


class Modules:
    """The ghost state of one call of instanciate_host."""

    def __init__(self, w):
        B = z3.BoolSort()
        self.w = w
        self.D, self.H = z3.Function("declared", sym.OBJ, B), z3.Function("of_host", sym.OBJ, B)
        self.pos = z3.Function("position", sym.OBJ, z3.IntSort())
        self.dep = z3.Function("depends", sym.OBJ, sym.OBJ, B)
        self.has = z3.Function("has_x", sym.OBJ, B)
        self.hv = z3.Bool("declared_x")
        self.ee = w.node("early")
        self.hostnode = w.node("host")
        w.fact(1, lambda x: z3.Implies(self.H(x), z3.And(self.D(x), x != self.ee, x != self.hostnode)))
        w.fact(2, lambda x, y: z3.Implies(z3.And(self.D(x), self.D(y), x != y), self.pos(x) != self.pos(y)))
        self.acted = lambda x: z3.BoolVal(False)         # changed x
        self.over = lambda x: z3.BoolVal(False)          # ... by overwriting it
        self.conf = z3.BoolVal(False)                    # a conflict about x was noted
        self.others = z3.Bool("conflict_about_another_variable")
        self.early = None
        self.closure = None
        self.calls, self.loads, self.hosts = [], [], []
        self.in_loop = self.after = False

    # the loops over the variables of a module
    def each(self, i, name, value):
        w, c = self.w, self.calls
        w.ensure("every variable of a module is examined exactly once", z3.BoolVal(len(c) == 1))
        actor, initializer, attr, v, group = c[0]
        o = i.owner
        if o == "declaration":
            w.ensure("a variable declared for the host is recorded as a change by the declaration, and visible to the groups",
                     z3.BoolVal(attr == name and v is value and actor is self.early and initializer is None and getattr(actor, name, None) is value))
        else:
            w.ensure("a variable of a module is compared with what the module started from", z3.BoolVal(
                attr == name and v is value and actor is o and initializer is o.initializer and (group is o if o.kind == "group" else True)))

    def recorded_all(self, i):
        """What the loop did to x: the contract of record_variable_change, applied if the module has x."""
        w, o = self.w, i.owner
        if o == "declaration":
            acted, hv, ee = self.acted, self.hv, self.ee
            self.acted = lambda x: z3.Or(acted(x), z3.And(hv, x == ee))
            return
        if o.kind == "host":
            return
        changed, over = z3.Bool(w.fresh("changed")), z3.Bool(w.fresh("overwritten"))
        changed = z3.And(self.has(o.z), changed)
        acted, ov, dep = self.acted, self.over, self.dep
        clash = lambda p: z3.And(acted(p), z3.Not(dep(o.z, p)), z3.Or(over, ov(p)))
        if w.ctx.choose(2):
            p = w.node("clashing")
            w.add(z3.And(changed, clash(p)))
            w.feasible()
            self.conf = z3.BoolVal(True)
        else:
            w.fact(1, lambda p: z3.Not(z3.And(changed, clash(p))))
        self.acted = lambda x: z3.Or(acted(x), z3.And(changed, x == o.z))
        self.over = lambda x: z3.Or(ov(x), z3.And(changed, over, x == o.z))

    # the loop over the groups
    def inv(self, done):
        a, o, dep, pos, ee, conf = self.acted, self.over, self.dep, self.pos, self.ee, self.conf
        first = lambda p, c: z3.Or(p == ee, pos(p) < pos(c))
        pair = lambda p, c: z3.And(a(p), a(c), c != ee, p != c, first(p, c), z3.Not(dep(c, p)), z3.Or(o(p), o(c)))
        return [("only loaded modules changed x", 1, lambda x: z3.Implies(a(x), z3.Or(done(x), z3.And(x == ee, self.hv)))),
                ("overwriting is a change", 1, lambda x: z3.Implies(o(x), a(x))),
                ("conflicting changes are noted", 2, lambda p, c: z3.Implies(pair(p, c), conf)),
                ("only conflicting changes are noted", "pair", (z3.Not(conf), pair))]

    def check(self, when, done):
        w = self.w
        for label, arity, fn in self.inv(done):
            label = f"groups of a host: {label} ({when})"
            if arity == "pair":
                w.ensure(label, z3.Or(fn[0], *[fn[1](p, c) for p in w.nodes for c in w.nodes]))
            else:
                w.ensure_all(label, arity, fn)

    def assume(self, done):
        w = self.w
        for label, arity, fn in self.inv(done):
            if arity == "pair":
                p, c = w.node("p"), w.node("c")
                w.add(z3.Or(fn[0], fn[1](p, c)))
            else:
                w.fact(arity, fn)

    def havoc(self):
        w = self.w
        a, o = z3.Function(w.fresh("acted"), sym.OBJ, z3.BoolSort()), z3.Function(w.fresh("over"), sym.OBJ, z3.BoolSort())
        self.acted, self.over = (lambda x: a(x)), (lambda x: o(x))
        self.conf = z3.Bool(w.fresh("conflict"))

    def start_nodes(self, nodes, reader, names):
        return GroupsLoop(self, nodes, reader, names)

    # stand-ins
    def record(self, f, *a, **kw):
        args = arguments(f, a, kw)
        self.closure = f
        if self.early is None:
            self.early = args[0]
        if args[2] == "host" and args[0] is self.early:
            return None
        self.calls.append(args)
        return None

    def load_group(self, f, name, initializer):
        w = self.w
        name = sym.force(name)
        if type(name) is not sym.SymObj:
            raise Unsupported("name of a loaded group")
        w.ensure("groups are loaded one after the other, before the host", z3.BoolVal(self.in_loop and not self.hosts))
        r = Loaded(self, name.z, initializer, "group")
        self.loads.append(r)
        return r

    def load_host(self, f, name, initializer):
        self.w.ensure("the module of the host is the last one", z3.BoolVal(self.after and not self.hosts and name == "h"))
        r = Loaded(self, self.hostnode, initializer, "host")
        self.hosts.append(r)
        return r


class GroupsLoop:
    cut = True

    def __init__(self, s, nodes, reader, names):
        self.s, self.reader = s, reader
        w = self.w = s.w
        P = self.P = nodes.pred
        if nodes.order is None or s.early is None or s.in_loop or s.after:
            raise Unsupported("loop over the groups of a host")
        pos = self.pos = nodes.order
        entry = reader()
        self.carrier = [n for n in names if entry.get(n, UNDEF) is s.early]
        if len(self.carrier) != 1:
            raise Unsupported("variables the next module starts from")
        w.ensure_all("exactly the groups of the host are loaded", 1, lambda x: P(x) == s.H(x))
        w.ensure_all("in the order of the dependencies", 2, lambda x, y: z3.Implies(z3.And(P(x), P(y)), (pos(x) < pos(y)) == (s.pos(x) < s.pos(y))))
        s.check("on entry", lambda x: z3.BoolVal(False))
        h, c = cells(s.closure)
        self.mode = w.ctx.choose(2)
        s.havoc()
        s.calls, s.loads = [], []
        if self.mode == 0:
            s.in_loop = True
            e = self.e = w.node("group")
            w.add(s.H(e))
            self.done = lambda x: z3.And(s.H(x), s.pos(x) < s.pos(e))
        else:
            s.after = True
            self.done = lambda x: s.H(x)
        s.assume(self.done)
        self.vals = {n: UNDEF if entry.get(n, UNDEF) is UNDEF else Poison() for n in names}
        # the module loaded before this point, or the declaration if there is none
        if w.ctx.choose(2):
            p = w.node("previous")
            w.add(self.done(p))
            w.fact(1, lambda x: z3.Implies(self.done(x), s.pos(x) <= s.pos(p)))
            w.feasible()
            prev = Loaded(s, p, None, "group")
        else:
            w.fact(1, lambda x: z3.Not(self.done(x)))
            w.feasible()
            prev = s.early
        self.vals[self.carrier[0]] = self.prev = prev
        if self.mode == 1:
            s.last = prev
            # the conflicts noted about x or any other variable
            if w.ctx.choose(2):
                w.add(z3.Or(s.conf, s.others))
                c[:] = [("definition", prev, "definition", prev, "x")]
            else:
                w.add(z3.Not(z3.Or(s.conf, s.others)))
                c[:] = []
            w.feasible()

    def value(self, n):
        return self.vals[n]

    def __iter__(self):
        if self.mode == 1:
            return
        s, w, e = self.s, self.w, self.e
        yield sym.SymObj(e)
        w.ensure("each group of the host is loaded exactly once", z3.BoolVal(len(s.loads) == 1 and not s.hosts))
        g = s.loads[0]
        w.ensure("the module of this group is loaded", g.z == e)
        w.ensure("a module starts from the variables of the module before it", z3.BoolVal(g.initializer is self.prev))
        w.ensure("the next module starts from the variables of this one", z3.BoolVal(self.reader().get(self.carrier[0]) is g))
        done = self.done
        s.check("preserved", lambda x: z3.Or(done(x), x == e))
        raise PathEnd()


def host_modules(prop):
    def body(ctx):
        w = World(ctx)
        s = Modules(w)
        inv = iw.InventoryWrapper()
        order = Nodes(lambda x: s.D(x), "group")
        order.order = s.pos
        order.loop_contract = s
        decl = types.SimpleNamespace(name="h", url="ssh://h", file=None, groups=Nodes(lambda x: s.H(x), "group"), vars=Items(s, "declaration", s.hv))
        inv._host_decls = {"h": decl}
        inv._topological_order = order
        C = rt.CONTRACTS
        C[RECORD] = s.record
        C[(M, "InventoryWrapper.load_group")] = s.load_group
        C[(M, "InventoryWrapper.load_host")] = s.load_host
        C[("fora.utils", "print_error")] = lambda f, *a, **k: None
        o = ctx.outcome(rt.call, inv.instanciate_host, "h")
        if not s.after:
            raise Unsupported("no loop over the groups of a host")
        a, ov = s.acted, s.over
        pair = s.inv(lambda x: z3.BoolVal(False))[3][2][1]
        if not o.returned:
            ctx.cover("refused")
            w.ensure("only conflicts are refused, before the host is loaded", z3.And(z3.BoolVal(o.raised(ValueError) and not s.hosts), z3.Or(
                s.others, *[pair(p, c) for p in w.nodes for c in w.nodes])))
            return
        ctx.cover("loaded")
        w.ensure("the host's own module is loaded once, and starts from the variables of the last group", z3.BoolVal(
            len(s.hosts) == 1 and o.value is s.hosts[0] and s.hosts[0].initializer is s.last))
        w.ensure_all("no two groups that do not depend on each other overwrote a variable", 2, lambda p, c: z3.Not(pair(p, c)))
    body.__name__ = "host_modules"
    return body


for _p in ("C13", "C14"):
    harness(_p, "modules of a host", functions=[I + "instanciate_host"], covers=["loaded", "refused"], enum=0, samples=0, seconds=120, concrete=False,
            assumes=SEES + ["the variables of a module have distinct names; one arbitrary variable is followed, what happens to another one does not change it (record_variable_change: proved)",
                            "_topological_order is an order of the declared groups after their dependencies (_calculate_topological_order: proved)"])(host_modules(_p))


# ---------------------------------------------------------------------------------------------------- one change
class Stop(BaseException):
    pass


class Past:
    """The recorded changes of x: an unknown, positive number."""
    __class__ = property(lambda self: list)

    def __init__(self, s):
        self.s, self.added, self.looped = s, [], 0

    def last(self):
        return self.s.snapshot_last

    def __getitem__(self, i):
        if type(i) is not int or i != -1 or self.added:
            raise Unsupported("element of the history")
        return self.last()

    def sym_len(self):
        n = sym.SymInt(z3.Int("changes"))
        self.s.w.add(n.z > 0)
        return n

    def __len__(self):
        raise Unsupported("native len() of the history")

    def __bool__(self):
        return True

    def append(self, v):
        self.added.append(v)

    def __iter__(self):
        raise Unsupported("native iteration of the history")

    def sym_loop(self, lid, reader, names, lc):
        return PastLoop(self, reader, names)

    def __getattr__(self, n):
        raise Unsupported(f"history: {n}")


class PastLoop:
    cut = True

    def __init__(self, past, reader, names):
        self.p = past
        entry = reader()
        self.vals = {n: UNDEF if entry.get(n, UNDEF) is UNDEF else Poison() for n in names}
        if past.added:
            raise Unsupported("the change is recorded before it is compared with earlier ones")
        self.mode = past.s.w.ctx.choose(2)

    def value(self, n):
        return self.vals[n]

    def __iter__(self):
        p, s = self.p, self.p.s
        if self.mode == 1:
            p.looped += 1
            return
        w = s.w
        prev = s.snapshot("an earlier change")
        before = list(s.conflicts)
        yield prev
        noted = s.conflicts[len(before):]
        unchanged = all(x is y for x, y in zip(before, s.conflicts)) and len(before) <= len(s.conflicts)
        cur = s.kind()
        clash = z3.And(z3.Not(s.dep(s.group.z, prev.actor.z)), z3.BoolVal(not (prev.action == "modification" and cur == "modification")))
        w.ensure("a change is in conflict with an earlier one iff the group does not depend on its author, and one of them overwrites",
                 z3.And(z3.BoolVal(unchanged and len(noted) <= 1), clash if noted else z3.Not(clash)))
        if noted:
            t = noted[0]
            w.ensure("a conflict names both changes", z3.BoolVal(tuple(t) == (prev.action, prev.actor, cur, s.actor, "x")))
        raise PathEnd()


class Actor:
    def __init__(self, z):
        self.z, self.name = z, sym.SymObj(z)

    def __getattr__(self, n):
        raise AttributeError(n) if n == "x" else Unsupported(f"attribute {n} of a module")


class Change:
    """The state around one call of record_variable_change."""

    def __init__(self, w):
        self.w = w
        self.dep = z3.Function("depends", sym.OBJ, sym.OBJ, z3.BoolSort())

    def snapshot(self, tag):
        k = self.w.ctx.choose(2)
        return iw.VariableActionSnapshot(["definition", "modification"][k], Actor(self.w.node("author")), Compared(self))

    def kind(self):
        return "definition" if self.overwritten else "modification"


class Compared:
    """The copy kept of an earlier value."""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        s = self.s
        if o is not s.value or self is not s.snapshot_last.value:
            raise Unsupported("comparison of values")
        return not s.differs()

    def __ne__(self, o):
        return not self == o

    __hash__ = None


@harness("C14", "recording a change", functions=[I + "instanciate_host"], covers=["first", "again", "unchanged", "compared"], enum=0, samples=0, seconds=60, concrete=False,
         assumes=SEES + ["copy.copy makes a value that is equal to its argument until that is changed in place"])
def recording(ctx):
    w = World(ctx)
    s = Change(w)
    inv = iw.InventoryWrapper()
    inv._host_decls = {"h": types.SimpleNamespace(name="h", url="ssh://h", file=None, groups=[], vars={})}
    inv._topological_order = []
    got = []

    def capture(f, *a, **kw):
        got.append(f)
        raise Stop
    rt.CONTRACTS[RECORD] = capture
    try:
        rt.call(inv.instanciate_host, "h")
    except Stop:
        pass
    if not got:
        raise Unsupported("no call of record_variable_change")
    f = got[0]
    del rt.CONTRACTS[RECORD]
    history, conflicts = cells(f)
    s.history, s.conflicts = history, conflicts
    other = object()
    history.clear()
    history["another"] = other
    s.value = Value("now")
    known = ctx.choose(2)
    answer = []

    def differs():
        if not answer:
            answer.append(bool(ctx.choose(2)))
        return answer[0]
    s.differs = differs
    past = None
    if known:
        s.snapshot_last = s.snapshot("the last change")
        past = history["x"] = Past(s)
    start = ctx.choose(4)         # what the module started from: nothing, no x, the same object, another one
    s.actor = s.group = Actor(w.node("group"))
    init = None if start == 0 else types.SimpleNamespace() if start == 1 else types.SimpleNamespace(x=s.value if start == 2 else Value("before"))
    s.overwritten = start == 3
    group = s.group if ctx.choose(2) else None
    copies = []

    def cp(v):
        copies.append((v, Value("copy")))
        return copies[-1][1]
    rt.EXTERNALS[copy.copy] = cp

    def depends(fn, a, b):
        a, b = sym.force(a), sym.force(b)
        if type(a) is not sym.SymObj or type(b) is not sym.SymObj:
            raise Unsupported("names of groups")
        return sym.SymBool(s.dep(a.z, b.z))
    rt.CONTRACTS[(M, "InventoryWrapper._depends_on")] = depends
    before = len(conflicts)
    o = ctx.outcome(rt.call, f, s.actor, init, "x", s.value, record_conflicts_group=group)
    w.ensure("a change is recorded without an error", z3.BoolVal(o.returned))
    w.ensure("another variable is not touched", z3.BoolVal(history.get("another") is other and set(history) <= {"x", "another"}))
    new = past.added if past is not None else history.get("x", [])
    changed = init is None or s.overwritten or not known or (differs() if known else True)
    w.ensure("exactly the changed variables are recorded, once", z3.BoolVal(len(new) == (1 if changed else 0) and (past is None or history["x"] is past)))
    if changed:
        sn = new[0]
        w.ensure("a change is recorded with its author and a copy of the value", z3.BoolVal(
            sn.actor is s.actor and len(copies) == 1 and copies[0][0] is s.value and sn.value is copies[0][1]))
        if s.overwritten or known and differs():
            w.ensure("overwriting is a definition, changing in place is not", z3.BoolVal(sn.action == s.kind()))
        ctx.cover("again" if known else "first")
    else:
        ctx.cover("unchanged")
    must = changed and known and init is not None and group is not None
    if past is not None and past.looped:
        ctx.cover("compared")
    w.ensure("a group's change is compared with every earlier change", z3.BoolVal((past is not None and past.looped >= 1) if must else True))
    w.ensure("no other conflicts are noted", z3.BoolVal(len(conflicts) == before))


# ---------------------------------------------------------------------------------------------------- one module
class Globals:
    """The variables of the inventory or of an earlier module: x with a known value (or not), and unknown others."""

    def __init__(self, s, tag):
        self.s, self.tag = s, tag
        self.value = Value(tag) if s.w.ctx.choose(2) else None

    def exported_variables(self):
        return self

    def items(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration of unknown variables")

    def __getattr__(self, n):
        raise Unsupported(f"variables of a module: {n}")

    def sym_loop(self, lid, reader, names, lc):
        return GlobalsLoop(self, reader, names)


class GlobalsLoop:
    cut = True

    def __init__(self, g, reader, names):
        self.g = g
        entry = reader()
        self.vals = {n: UNDEF if entry.get(n, UNDEF) is UNDEF else Poison() for n in names}
        self.mode = g.s.w.ctx.choose(2)

    def value(self, n):
        return self.vals[n]

    def __iter__(self):
        g = self.g
        s, w = g.s, g.s.w
        m = s.module()
        if self.mode == 1:
            s.copied.append(g)
            if g.value is not None:
                m.x = g.value
            return
        had = m.__dict__.get("x", UNDEF)
        v = Value("another")
        yield "another", v
        w.ensure("a module is given every variable of the modules before it", z3.BoolVal(m.__dict__.get("another") is v))
        w.ensure("a variable is not lost by passing on another one", z3.BoolVal(m.__dict__.get("x", UNDEF) is had))
        raise PathEnd()


class OneModule:
    def __init__(self, w):
        self.w = w
        self.copied = []
        self.loaded = []
        self.seen = None

    def module(self):
        m = self.loaded[-1][1] if self.loaded else None
        if m is None:
            import fora
            cur = fora.group if self.kind == "group" else fora.host
            m = None if cur is None else object.__getattribute__(cur, "module")
        if m is None:
            raise Unsupported("module that is given variables")
        return m

    def load_py_module(self, f, file, pre_exec=None):
        import fora
        w = self.w
        m = types.ModuleType("m")
        self.loaded.append((file, m))
        if pre_exec is not None:
            rt.call(pre_exec, m)
        # here the module is executed
        self.seen = (fora.group, fora.host, m.__dict__.get("x", UNDEF))
        self.members = {n: m.__dict__.get(n, UNDEF) for n in ("name", "url", "groups", "inventory")}
        if w.ctx.choose(2):
            m.x = self.own = Value("own")
        return m


def one_module(kind):
    def body(ctx):
        import fora
        w = World(ctx)
        s = OneModule(w)
        s.kind, s.own = kind, None
        inv = iw.InventoryWrapper()
        glob = Globals(s, "inventory")
        name = ctx.choice("name", ["web", "all"]) if kind == "group" else "web"
        file = [None, "sub/special.py"][ctx.choose(2)]
        there = {"default": bool(ctx.choose(2)), "explicit": bool(ctx.choose(2))}
        initializer = Globals(s, "earlier") if ctx.choose(2) else None
        decl = iw.GroupDeclaration(name=name, file=file) if kind == "group" else iw.HostDeclaration(name=name, url="ssh://web", file=file, groups=["all", "g"])
        inv._group_decls, inv._host_decls = ({name: decl}, {}) if kind == "group" else ({}, {name: decl})
        C = rt.CONTRACTS
        C[(M, "InventoryWrapper.base_dir")] = lambda f: "/inv"
        default = f"/inv/{kind}s/{name}.py"
        C[(M, "InventoryWrapper.exported_variables")] = C[("fora.types", "ModuleWrapper.exported_variables")] = lambda f: glob if f.__self__ is inv else NotImplemented
        C[("fora.utils", "load_py_module")] = s.load_py_module

        def exists(p):
            if p == default:
                return there["default"]
            if p == "/inv/sub/special.py":
                return there["explicit"]
            raise Unsupported(f"existence of {p!r}")
        import os
        rt.EXTERNALS[os.path.exists] = rt.EXTERNALS[os.path.isfile] = exists
        old = fora.group, fora.host
        fora.group = fora.host = None
        try:
            o = ctx.outcome(rt.call, inv.load_group if kind == "group" else inv.load_host, name, initializer)
            end = fora.group, fora.host
        finally:
            fora.group, fora.host = old
        if file is not None and not there["explicit"]:
            ctx.cover("refused")
            w.ensure("a missing explicit file is refused, and no module executed", z3.BoolVal(o.raised(ValueError) and not s.loaded))
            return
        w.ensure("the module is loaded", z3.BoolVal(o.returned))
        exists_ = there["explicit"] if file is not None else there["default"]
        r = o.value
        ctx.cover("executed" if exists_ else "no file")
        want = "/inv/sub/special.py" if file is not None else default
        w.ensure("exactly its own file is executed, once", z3.BoolVal([f for f, m in s.loaded] == ([want] if exists_ else [])))
        m = object.__getattribute__(r, "module")
        inherited = initializer.value if initializer is not None else None
        if inherited is None and name == "all":
            inherited = glob.value
        if exists_:
            cur = s.seen[0] if kind == "group" else s.seen[1]
            w.ensure("the module sees the group or host it is executed for", z3.BoolVal(cur is r and m is s.loaded[0][1]))
            w.ensure("the module sees the variables as left by the modules before it", z3.BoolVal(s.seen[2] is (UNDEF if inherited is None else inherited)))
            w.ensure("the members of the group or host are available to its module", z3.BoolVal(
                s.members["name"] == name and (kind == "group" or (s.members["url"] == "ssh://web" and s.members["groups"] == ["all", "g"] and s.members["inventory"] is inv))))
        sources = ([glob] if name == "all" else []) + ([initializer] if initializer is not None else [])
        w.ensure("all variables are passed on, those of the inventory to the group 'all' only", z3.BoolVal(len(s.copied) == len(sources) and all(a is b for a, b in zip(s.copied, sources))))
        final = s.own if s.own is not None else inherited
        w.ensure("the module's own definition decides, else the inherited one", z3.BoolVal(m.__dict__.get("x", UNDEF) is (UNDEF if final is None else final)))
        w.ensure("the value is that of the wrapper", z3.BoolVal(rt.call(getattr, r, "x", UNDEF) is (UNDEF if final is None else final)))
        w.ensure("the wrapper is that of the group or host", z3.BoolVal(r.name == name and (kind == "group" or (r.url == "ssh://web" and r.groups == ["all", "g"]))))
        w.ensure("nothing is being loaded afterwards", z3.BoolVal(end == (None, None)))
        if name == "all":
            ctx.cover("managed")
            w.ensure("the notice for managed files is defined", z3.BoolVal(m.__dict__.get("fora_managed") is not None))
    body.__name__ = "load_" + kind
    return body


for _p in ("C13", "C14"):
    for _k in ("group", "host"):
        harness(_p, f"module of a {_k}", functions=[I + f"load_{_k}", "fora.types.ModuleWrapper.wrap"], covers=["refused", "executed", "no file"] + (["managed"] if _k == "group" else []),
                enum=0, samples=0, seconds=60, concrete=False,
                assumes=["load_py_module: calls pre_exec with the new module, then executes the file in it (bounded: the real loader)", "variables of a module have distinct names; one arbitrary variable is followed"])(one_module(_k))
