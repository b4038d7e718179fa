"""Graphs of unknown size: node sets, maps over nodes and bags of node tuples.

A node is an unknown object.  Universally quantified facts are kept as Python functions and
instantiated on every node constant of the path (existentials are Skolemized by fresh constants), so
every obligation stays quantifier free.  The instantiation can only weaken what is known: a
discharged obligation is valid, one the solver refutes is *undecided*, never reported.
"""
import itertools

import z3

from . import core, sym
from .core import Unsupported, PathEnd
from . import rt
from .rt import UNDEF, SymGen, comp_list, iter_      # noqa: F401
from .sym import OBJ, SymObj, SymInt, SymBool, force


class World:
    """Node constants, universal facts and mutable objects of the current path."""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.graph_world = self
        self.nodes = []
        self.facts = []          # (arity, fn)
        self.maps = []
        self.bags = []
        self.sets = []
        self.rels = []
        self.named = {}          # texts that are nodes
        self.version = 0
        self.count = 0
        self.hyp = False

    def fresh(self, tag):
        self.count += 1
        return f"{tag}!{self.count}"

    def fact(self, arity, fn):
        """forall x1..xn: fn(x1..xn) (a z3 condition), from here on."""
        self.nohyp()
        self.facts.append((arity, fn))
        for t in itertools.product(self.nodes, repeat=arity):
            self.add(fn(*t))

    def add(self, z):
        z = z3.simplify(z)
        if not z3.is_true(z):
            self.ctx.add(z)

    def nohyp(self):
        if self.hyp:
            raise Unsupported("side effect while describing a generic element")

    def node(self, tag="node"):
        self.nohyp()
        c = z3.Const(self.fresh(tag), OBJ)
        old = list(self.nodes)
        self.nodes.append(c)
        for arity, fn in self.facts:
            for t in itertools.product(self.nodes, repeat=arity):
                if any(x is c for x in t):
                    self.add(fn(*t))
        del old
        return c

    def feasible(self):
        if self.ctx._check()[0] == z3.unsat:
            raise PathEnd()

    def ensure(self, label, z):
        """An obligation of the argument; what the solver does not prove is undecided."""
        ctx = self.ctx
        st = ctx.stats
        st.obligations += 1
        lab = st.labels.setdefault(label, [0, 0])
        lab[0] += 1
        z = z3.simplify(z if isinstance(z, z3.BoolRef) else core.to_z3bool(z))
        if z3.is_true(z):
            st.by_eval += 1
        else:
            r, m = ctx._check(z3.Not(z))
            if r != z3.unsat:
                st.undecided.append(f"{label}: not proved")
                raise PathEnd()
            st.by_z3 += 1
            ctx.add(z)
        st.discharged += 1
        lab[1] += 1

    def some(self, fn):
        """One of the nodes of the path satisfies fn (an existential with a known witness)."""
        return z3.Or(*[fn(c) for c in self.nodes])

    def ensure_all(self, label, arity, fn):
        xs = [self.node("any") for _ in range(arity)]
        self.ensure(label, fn(*xs))

    def generic(self, preds, f, tag="elem"):
        """The z3 condition / term f computes on an arbitrary element, as a function of it.
        preds: list of per-position predicates over fresh constants."""
        if self.hyp:
            raise Unsupported("nested generic elements")
        e = self.node(tag)
        ctx = self.ctx
        ctx.solver.push()
        ctx.solver.add(preds(e))
        self.hyp = True
        version = self.version
        saved = {k: ctx.__dict__.get(k) for k in ("branch", "choose", "add", "int", "str", "bool", "obj", "assume")}

        def no(*a, **k):
            raise Unsupported("effect while describing a generic element")

        def branch(z):
            z = z3.simplify(z)
            if z3.is_true(z):
                return True
            if z3.is_false(z):
                return False
            if ctx._check(z3.Not(z))[0] == z3.unsat:
                return True
            if ctx._check(z)[0] == z3.unsat:
                return False
            raise Unsupported("decision on a generic element")
        ctx.branch = branch
        for k in ("choose", "add", "int", "str", "bool", "obj", "assume"):
            setattr(ctx, k, no)
        try:
            v = f(SymObj(e))
        finally:
            self.hyp = False
            for k, o in saved.items():
                if o is None:
                    ctx.__dict__.pop(k, None)
                else:
                    ctx.__dict__[k] = o
            ctx.solver.pop()
        if self.version != version:
            raise Unsupported("effect while describing a generic element")
        return e, force(v)

    def objects(self):
        return self.maps + self.bags + self.sets + self.rels

    def frame(self, changing):
        return [(o, o.rel if type(o) is Bag else o.a) for o in self.objects() if not any(o is x for x in changing)] + \
            [(o, None) for o in changing], [(m, m.dom) for m in self.maps]

    def unchanged(self, frame, name):
        for o, c in frame[0]:
            if c is not None and (o.rel if type(o) is Bag else o.a) is not c:
                raise Unsupported(f"loop {name} changes something its contract does not list")
        for m, d in frame[1]:
            if m.dom is not d:
                raise Unsupported(f"loop {name} adds keys to a map")

    def check(self, name, when, items):
        for label, arity, fn in items:
            label = f"{name}: {label} ({when})"
            if arity == "some":
                self.ensure(label, z3.Or(fn[0], self.some(fn[1])))
            elif arity:
                self.ensure_all(label, arity, fn)
            else:
                self.ensure(label, fn)

    def assume(self, items):
        for label, arity, fn in items:
            if arity == "some":
                self.add(z3.Or(fn[0], fn[1](self.node("some"))))
            elif arity:
                self.fact(arity, fn)
            else:
                self.add(fn)


def world():
    w = getattr(core.cur(), "graph_world", None)
    if w is None:
        raise Unsupported("graph values without a graph contract")
    return w


def as_node(x):
    x = force(x)
    if type(x) is SymObj:
        return x.z
    if type(x) is str and x in world().named:
        return world().named[x]
    raise Unsupported(f"{x!r} is not a node")


def subst(z, e, x):
    return z3.substitute(z, (e, x))


def as_pred(w, P, f):
    """x -> truth of f(x), for x satisfying P."""
    e, v = w.generic(P, f)
    z = sym.truth(v)
    return lambda x: subst(z, e, x)


class Nodes:
    """A finite collection of distinct nodes, described by a predicate."""
    sym_graph = True
    __class__ = property(lambda self: list)

    def __init__(self, pred, name="nodes", length=None, lazy=None):
        self.pred_, self.name, self.length, self.lazy = pred, name, length, lazy
        self.order = None
        self.loop_contract = None
        self.decided = None

    @property
    def pred(self):
        if self.lazy is not None:
            f, base = self.lazy
            w = world()
            Q = as_pred(w, base, f)
            return lambda x: z3.And(base(x), Q(x))
        return self.pred_

    # -- emptiness
    def witness(self):
        """An element, or None if there is none (both explored)."""
        w = world()
        w.nohyp()
        P = self.pred
        if self.length is not None:
            nonempty = w.ctx.branch(self.length > 0)
        else:
            nonempty = w.ctx.branch(z3.Bool(w.fresh(self.name + ".nonempty")))
        if nonempty:
            c = w.node(self.name)
            w.add(P(c))
            w.feasible()
            return SymObj(c)
        w.fact(1, lambda x: z3.Not(P(x)))
        w.feasible()
        return None

    def __bool__(self):
        return self.witness() is not None

    def sym_len(self):
        if self.length is not None:
            return SymInt(self.length)
        w = world()
        n = z3.Int(w.fresh(self.name + ".len"))
        if self.witness() is not None:
            w.add(n > 0)
        else:
            w.add(n == 0)
        return SymInt(n)

    def __len__(self):
        raise Unsupported("native len() of an unknown collection")

    def __iter__(self):
        raise Unsupported("native iteration of an unknown collection")

    def sym_contains(self, x):
        return SymBool(self.pred(as_node(x)))

    __contains__ = sym_contains

    def sym_list(self):
        r = Nodes(self.pred, self.name, self.length)
        r.order, r.loop_contract = self.order, self.loop_contract
        return r

    sym_iter = sym_list

    def copy(self):
        return self.sym_list()

    def sym_set(self):
        P = self.pred
        world().nohyp()
        s = NodeSet()
        s.havoc()
        a = s.a
        world().fact(1, lambda x: a[x] == P(x))
        return s

    def sym_next(self, *default):
        c = self.witness()
        if c is None:
            if default:
                return default[0]
            raise StopIteration
        return c

    def __getitem__(self, i):
        if type(i) is not int:
            raise Unsupported("index into an unknown collection")
        c = self.witness()
        if c is None:
            raise IndexError("list index out of range")
        if i not in (0, -1):
            raise Unsupported("index into an unknown collection")
        return c

    def sym_filter(self, f):
        r = Nodes(None, self.name, lazy=(f or (lambda x: x), self.pred))
        r.order, r.loop_contract = self.order, self.loop_contract
        return r

    def sym_any(self, f=None, cond=None):
        """any(f(x) for x in self if cond(x))."""
        w = world()
        P = self.pred
        C = as_pred(w, P, cond) if cond else (lambda x: z3.BoolVal(True))
        PC = lambda x: z3.And(P(x), C(x))
        F = as_pred(w, PC, f) if f else (lambda x: z3.BoolVal(True))
        return Nodes(lambda x: z3.And(PC(x), F(x)), self.name).witness() is not None

    def sym_comp(self, kind, f, cond=None, key=None):
        w = world()
        P = self.pred
        if cond is not None:
            C = as_pred(w, P, cond)
            PC = lambda x: z3.And(P(x), C(x))
        else:
            PC = P
        if kind == "dict":
            e, k = w.generic(PC, key)
            if type(k) is not SymObj or not z3.eq(k.z, e):
                raise Unsupported("dict comprehension with computed keys")
        e, v = w.generic(PC, f)
        if kind == "dict":
            if type(v) is bool:
                return SymMap(PC, z3.K(OBJ, z3.BoolVal(v)))
            if type(v) is int:
                return SymMap(PC, z3.K(OBJ, z3.IntVal(v)))
            if type(v) in (SymInt, SymBool):
                a = z3.Const(w.fresh("map"), z3.ArraySort(OBJ, v.z.sort()))
                m = SymMap(PC, a)
                w.fact(1, lambda x: z3.Implies(PC(x), a[x] == subst(v.z, e, x)))
                return m
            raise Unsupported("dict comprehension with unsupported values")
        if type(v) is SymObj and z3.eq(v.z, e):
            r = Nodes(PC, self.name, self.length if cond is None else None)
            if kind != "set":
                r.order, r.loop_contract = self.order, self.loop_contract
            return r
        if type(v) is tuple and all(type(force(y)) is SymObj for y in v):
            comps = [force(y).z for y in v]
            if not any(z3.eq(y, e) for y in comps):
                raise Unsupported("tuples without the generic element")

            def L(*xs):
                i = next(i for i, y in enumerate(comps) if z3.eq(y, e))
                return z3.And(PC(xs[i]), *[xs[j] == (xs[i] if z3.eq(y, e) else y) for j, y in enumerate(comps) if j != i])
            return Bag(len(comps), L)
        raise Unsupported("comprehension over a node collection")

    def sort(self, key=None, reverse=False):
        w = world()
        w.nohyp()
        if key is None or reverse is not False:
            raise Unsupported("order of an unknown collection")
        P = self.pred
        e, v = w.generic(P, key)
        if type(v) is not SymInt:
            raise Unsupported("sort key")
        pos = z3.Function(w.fresh("pos"), OBJ, z3.IntSort())
        w.fact(2, lambda x, y: z3.Implies(z3.And(P(x), P(y), subst(v.z, e, x) < subst(v.z, e, y)), pos(x) < pos(y)))
        self.order = pos

    def sym_sorted(self, key=None, reverse=False):
        r = self.sym_list()
        r.sort(key=key, reverse=reverse)
        return r

    def sym_loop(self, lid, reader, names, lc):
        if self.loop_contract is not None:
            return self.loop_contract.start_nodes(self, reader, names)
        if type(lc) is EachChanging:
            return EachChangingLoop(self, lid, reader, names, lc)
        return EachLoop(self, lid, reader, names, lc)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Nodes({self.name})"


class EachLoop:
    """`for x in nodes`: the body is run on an arbitrary element; what the contract claims of every
    element is established there and known after the loop.  The body must not change the maps."""
    cut = True

    def __init__(self, nodes, lid, reader, names, lc):
        self.nodes, self.lc, self.lid = nodes, lc, lid
        self.w = world()
        self.w.nohyp()
        entry = reader()
        for n in names:
            if entry.get(n, UNDEF) is not UNDEF:
                raise Unsupported(f"loop {lid} carries '{n}'")
        self.mode = self.w.ctx.choose(2)

    def value(self, n):
        return UNDEF

    def __iter__(self):
        w = self.w
        P = self.nodes.pred
        lc = self.lc
        if self.mode == 1:
            if lc is not None:
                C = lc.claim()
                w.fact(1 + lc.extra, lambda x, *ys: z3.Implies(P(x), C(x, *ys)))
            return
        e = self.nodes.witness()
        if e is None:
            raise PathEnd()          # covered by the other mode
        v = w.version
        if lc is not None:
            lc.element = e.z
            C = lc.claim()
        yield e
        if w.version != v:
            raise Unsupported(f"loop {self.lid} changes a map")
        if lc is not None:
            w.ensure_all(f"{lc.name}: claimed of every element", lc.extra, lambda *ys: C(e.z, *ys))
        raise PathEnd()


class Each:
    """Contract of a for loop: `claim()` -> (x, y1..yk) -> condition on an element x (and any nodes y)."""

    def __init__(self, name, claim, extra=0):
        self.name, self.claim, self.extra = name, claim, extra
        self.element = None


class SymMap:
    """A dict from nodes to integers or booleans."""
    sym_graph = True
    __class__ = property(lambda self: dict)

    def __init__(self, dom, array):
        self.dom, self.a = dom, array
        w = world()
        w.maps.append(self)
        w.version += 1

    @property
    def is_int(self):
        return self.a.sort().range() == z3.IntSort()

    def at(self, x):
        return z3.Select(self.a, x)

    def _key(self, k):
        k = force(k)
        if type(k) is not SymObj:
            raise Unsupported("key of a node map")
        return k.z

    def __getitem__(self, k):
        z = self._key(k)
        if not bool(SymBool(self.dom(z))):
            raise KeyError(k)
        v = z3.Select(self.a, z)
        return SymInt(v) if self.is_int else SymBool(v)

    def get(self, k, default=None):
        z = self._key(k)
        if not bool(SymBool(self.dom(z))):
            return default
        return self[k]

    def __setitem__(self, k, v):
        w = world()
        w.nohyp()
        z = self._key(k)
        v = force(v)
        if not bool(SymBool(self.dom(z))):
            dom = self.dom
            self.dom = lambda x: z3.Or(dom(x), x == z)
        if self.is_int:
            if type(v) not in (int, SymInt):
                raise Unsupported("value of a node map")
            v = z3.IntVal(v) if type(v) is int else v.z
        else:
            if type(v) not in (bool, SymBool):
                raise Unsupported("value of a node map")
            v = z3.BoolVal(v) if type(v) is bool else v.z
        self.a = z3.Store(self.a, z, v)
        w.version += 1

    def havoc(self):
        w = world()
        self.a = z3.Const(w.fresh("map"), self.a.sort())
        w.version += 1

    def keys(self):
        return Nodes(self.dom, "key")

    sym_list = keys

    def values(self):
        return SymValues(self)

    def items(self):
        return SymItems(self)

    def sym_contains(self, k):
        return SymBool(self.dom(self._key(k)))

    __contains__ = sym_contains

    def sym_len(self):
        return self.keys().sym_len()

    def sym_loop(self, *a):
        return self.keys().sym_loop(*a)

    def sym_comp(self, *a, **k):
        return self.keys().sym_comp(*a, **k)

    def sym_any(self, *a):
        return self.keys().sym_any(*a)

    def sym_filter(self, f):
        return self.keys().sym_filter(f)

    def sym_next(self, *a):
        raise TypeError("'dict' object is not an iterator")

    def __bool__(self):
        return bool(self.keys())

    def __iter__(self):
        raise Unsupported("native iteration of a node map")

    def __len__(self):
        raise Unsupported("native len() of a node map")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    def __repr__(self):
        return "SymMap"


class SymValues:
    sym_graph = True
    def __init__(self, m):
        self.dom, self.a, self.is_int = m.dom, m.a, m.is_int

    def val(self, x):
        v = z3.Select(self.a, x)
        return SymInt(v) if self.is_int else SymBool(v)

    def sym_contains(self, v):
        z = lambda x: sym.truth(self.val(x) == v)
        return Nodes(lambda x: z3.And(self.dom(x), z(x)), "holder").witness() is not None

    __contains__ = sym_contains

    def sym_any(self, f=None, cond=None):
        g = lambda x: self.val(x.z)
        return Nodes(self.dom, "key").sym_any((lambda x: f(g(x))) if f else g, (lambda x: cond(g(x))) if cond else None)

    def sym_comp(self, kind, f, cond=None, key=None):
        raise Unsupported("comprehension over the values of a node map")

    def sym_extremum(self, smallest, default):
        w = world()
        c = Nodes(self.dom, "key").witness()
        if c is None:
            if default is not UNDEF:
                return default
            raise ValueError("max() arg is an empty sequence")
        a, dom, m = self.a, self.dom, z3.Select(self.a, c.z)
        w.fact(1, lambda x: z3.Implies(dom(x), m <= a[x] if smallest else m >= a[x]))
        w.feasible()
        return SymInt(m)

    def __iter__(self):
        raise Unsupported("native iteration of the values of a node map")


class SymItems:
    sym_graph = True
    def __init__(self, m):
        self.dom, self.v = m.dom, SymValues(m)

    def sym_comp(self, kind, f, cond=None, key=None):
        g = lambda x: (x, self.v.val(x.z))
        return Nodes(self.dom, "key").sym_comp(kind, lambda x: f(g(x)), (lambda x: cond(g(x))) if cond else None, key=(lambda x: key(g(x))) if key else None)

    def __iter__(self):
        raise Unsupported("native iteration of the items of a node map")


class Bag:
    """A list of node tuples, described by which tuples may be in it and which must be: `may` and
    `must` coincide here except that after pop() the popped tuple may remain (duplicates)."""
    sym_graph = True
    __class__ = property(lambda self: list)

    def __init__(self, arity, rel):
        self.k, self.rel = arity, rel
        self.ops = (0, 0)        # elements taken, additions
        world().bags.append(self)

    def _elem(self):
        w = world()
        w.nohyp()
        rel = self.rel
        if w.ctx.branch(z3.Bool(w.fresh("bag.nonempty"))):
            cs = [w.node("bag") for _ in range(self.k)]
            w.add(rel(*cs))
            w.feasible()
            return cs
        w.fact(self.k, lambda *xs: z3.Not(rel(*xs)))
        w.feasible()
        return None

    def __bool__(self):
        return self._elem() is not None

    def sym_len(self):
        w = world()
        n = z3.Int(w.fresh("bag.len"))
        w.add(n > 0 if self._elem() is not None else n == 0)
        return SymInt(n)

    def pop(self, i=-1):
        if type(i) is not int:
            raise Unsupported("pop()")
        w = world()
        cs = self._elem()
        if cs is None:
            raise IndexError("pop from empty list")
        if i not in (0, -1):
            raise Unsupported("pop() in the middle")
        old = self.rel
        new = z3.Function(w.fresh("bag"), *[OBJ] * self.k, z3.BoolSort())
        w.fact(self.k, lambda *xs: z3.And(z3.Implies(new(*xs), old(*xs)),
                                          z3.Implies(z3.And(old(*xs), z3.Or(*[x != c for x, c in zip(xs, cs)])), new(*xs))))
        self.rel = lambda *xs: new(*xs)
        self.ops = (self.ops[0] + 1, self.ops[1])
        self.last = cs
        w.version += 1
        return tuple(SymObj(c) for c in cs) if self.k > 1 else SymObj(cs[0])

    def popleft(self):
        return self.pop(0)

    def append(self, t):
        w = world()
        w.nohyp()
        t = tuple(force(x) for x in (force(t) if self.k > 1 else (t,)))
        if len(t) != self.k or any(type(x) is not SymObj for x in t):
            raise Unsupported("append")
        old = self.rel
        self.rel = lambda *xs: z3.Or(old(*xs), z3.And(*[x == y.z for x, y in zip(xs, t)]))
        self.ops = (self.ops[0], self.ops[1] + 1)
        w.version += 1

    def extend(self, o):
        w = world()
        w.nohyp()
        o = force(o)
        if isinstance(o, SymGen):
            o = o.it.sym_comp("list", o.f, o.cond)
        if type(o) is Nodes and self.k == 1:
            o = Bag(1, o.pred)
        if type(o) is list or type(o) is tuple:
            for t in o:
                self.append(t)
            return
        if type(o) is not Bag or o.k != self.k:
            raise Unsupported("extend")
        old, new = self.rel, o.rel
        self.rel = lambda *xs: z3.Or(old(*xs), new(*xs))
        self.ops = (self.ops[0], self.ops[1] + 1)
        w.version += 1

    def __iadd__(self, o):
        self.extend(o)
        return self

    def havoc(self):
        w = world()
        f = z3.Function(w.fresh("bag"), *[OBJ] * self.k, z3.BoolSort())
        self.rel = lambda *xs: f(*xs)
        more = z3.Int(w.fresh("added"))
        w.add(more >= self.ops[1])
        self.ops = (self.ops[0], more)
        w.version += 1

    def sym_list(self):
        return Bag(self.k, self.rel)

    def __iter__(self):
        raise Unsupported("native iteration of an unknown list")

    def __len__(self):
        raise Unsupported("native len() of an unknown list")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def __repr__(self):
        return "Bag"


def list_display(items):
    """A list of nodes written out becomes a bag, if it may grow beyond what is known."""
    xs = [force(x) for x in items]
    if xs and all(type(x) is SymObj for x in xs):
        b = Bag(1, lambda y: z3.BoolVal(False))
        for x in xs:
            b.append(x)
        b.ops = (0, 0)
        return b
    return items


class NodeSet:
    """A set of nodes."""
    sym_graph = True
    __class__ = property(lambda self: set)

    def __init__(self):
        self.a = z3.K(OBJ, z3.BoolVal(False))
        self.dom = None
        w = world()
        w.sets.append(self)
        w.version += 1

    def sym_contains(self, x):
        return SymBool(z3.Select(self.a, as_node(x)))

    __contains__ = sym_contains

    def sym_list(self):
        a = self.a
        return Nodes(lambda x: z3.Select(a, x), "member")

    def sym_set(self):
        s = NodeSet()
        s.a = self.a
        return s

    copy = sym_set

    def __or__(self, o):
        s = self.sym_set()
        s.update(o)
        return s

    __ror__ = __or__

    def union(self, *os):
        s = self.sym_set()
        for o in os:
            s.update(o)
        return s

    def sym_loop(self, *a):
        return self.sym_list().sym_loop(*a)

    def sym_comp(self, *a, **k):
        return self.sym_list().sym_comp(*a, **k)

    def add(self, x):
        w = world()
        w.nohyp()
        self.a = z3.Store(self.a, as_node(x), z3.BoolVal(True))
        w.version += 1

    def update(self, o):
        w = world()
        w.nohyp()
        o = force(o)
        if type(o) is NodeSet:
            o = o.sym_list()
        if type(o) in (list, tuple, rt.LSet):
            zs = [as_node(x) for x in o]
            o = Nodes(lambda x: z3.Or(*[x == z for z in zs]), "items")
        if type(o) is not Nodes:
            raise Unsupported("update of a node set")
        P, old = o.pred, self.a
        self.havoc()
        new = self.a
        w.fact(1, lambda x: new[x] == z3.Or(old[x], P(x)))

    def havoc(self):
        w = world()
        self.a = z3.Const(w.fresh("set"), self.a.sort())
        w.version += 1

    def __iter__(self):
        raise Unsupported("native iteration of a node set")

    def __len__(self):
        raise Unsupported("native len() of a node set")

    def __bool__(self):
        a = self.a
        return bool(Nodes(lambda x: z3.Select(a, x), "member"))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return "NodeSet"


class Rel:
    """Lists of nodes, one per node: `at(x, y)`: y is in the list of x."""

    def __init__(self, fn):
        self.a = fn
        world().rels.append(self)

    def at(self, x, y):
        return self.a(x, y)

    def havoc(self):
        w = world()
        f = z3.Function(w.fresh("lists"), OBJ, OBJ, z3.BoolSort())
        self.a = lambda x, y: f(x, y)
        w.version += 1

    def assign(self, owner, value):
        w = world()
        w.nohyp()
        value = force(value)
        if type(value) in (list, tuple) and not value:
            P = lambda y: z3.BoolVal(False)
        elif type(value) in (Nodes, ListOf):
            P = value.pred
        elif type(value) is Bag and value.k == 1:
            P = value.rel
        else:
            raise Unsupported("assigned list")
        old = self.a
        self.a = lambda x, y: z3.If(x == owner, P(y), old(x, y))
        w.version += 1


class ListOf(Nodes):
    """The list of one node in a Rel (an alias: changes are seen by everyone)."""
    __class__ = property(lambda self: list)

    def __init__(self, rel, owner):
        Nodes.__init__(self, None, "item")
        self.r, self.owner = rel, owner

    @property
    def pred(self):
        a, o = self.r.a, self.owner
        return lambda y: a(o, y)

    def append(self, v):
        w = world()
        w.nohyp()
        v = force(v)
        if type(v) is not SymObj:
            raise Unsupported("append")
        old, o = self.r.a, self.owner
        self.r.a = lambda x, y: z3.Or(old(x, y), z3.And(x == o, y == v.z))
        w.version += 1

    def extend(self, o):
        raise Unsupported("extend")

    def clear(self):
        self.r.assign(self.owner, [])

    def sort(self, key=None, reverse=False):
        pass        # the order within a list is not modelled


class EachChanging:
    """Contract of a for loop whose body changes sets or bags: `inv(done)` -> [(label, arity, fn)], given the
    predicate of the elements already processed; elements may repeat."""

    def __init__(self, name, inv, modifies, begin=None):
        self.name, self.inv, self.modifies, self.begin = name, inv, modifies, begin


class EachChangingLoop:
    cut = True

    def __init__(self, nodes, lid, reader, names, lc):
        self.c = lc
        w = self.w = world()
        w.nohyp()
        P = self.P = nodes.pred
        entry = reader()
        for n in names:
            if entry.get(n, UNDEF) is not UNDEF:
                raise Unsupported(f"loop {lid} carries '{n}'")
        if lc.begin:
            lc.begin()
        w.check(lc.name, "on entry", lc.inv(lambda x: z3.BoolVal(False)))
        self.mode = w.ctx.choose(2)
        self.objs = lc.modifies()
        for o in self.objs:
            o.havoc()
        self.frame = w.frame(self.objs)
        if self.mode == 1:
            w.assume(lc.inv(P))
            w.feasible()
        else:
            f = z3.Function(w.fresh("done"), OBJ, z3.BoolSort())
            self.done = lambda x: f(x)
            w.fact(1, lambda x: z3.Implies(f(x), P(x)))
            w.assume(lc.inv(self.done))
            e = self.e = w.node("item")
            w.add(P(e))
            w.feasible()

    def value(self, n):
        return UNDEF

    def __iter__(self):
        if self.mode == 1:
            return
        w, e, done = self.w, self.e, self.done
        yield SymObj(e)
        w.unchanged(self.frame, self.c.name)
        w.check(self.c.name, "preserved", self.c.inv(lambda x: z3.Or(done(x), x == e)))
        raise PathEnd()


class While:
    """Contract of a while loop: `modifies()` -> the maps, bags and sets an iteration may change;
    `inv(vals)` -> [(label, arity, fn)] over nodes (arity 0: a plain condition);
    `progress(before, after)` -> same, the descent of a well-founded measure between two `snapshot()`s."""

    def __init__(self, name, inv, modifies, begin=None, snapshot=None, progress=None):
        self.name, self.inv, self.modifies, self.begin, self.snapshot, self.progress = name, inv, modifies, begin, snapshot, progress

    def start(self, reader, names):
        if self.begin:
            self.begin()
        return WhileRun(self, reader, names)


class WhileRun:
    cut = True

    def __init__(self, spec, reader, names):
        self.s, self.reader = spec, reader
        w = self.w = world()
        w.nohyp()
        entry = reader()
        w.check(spec.name, "on entry", spec.inv(entry))
        self.vals = {}
        for n in names:
            v = force(entry.get(n, UNDEF))
            if v is UNDEF:
                self.vals[n] = UNDEF
            elif type(v) is SymObj:
                self.vals[n] = SymObj(w.node(n))
            elif type(v) is SymInt or type(v) is int:
                self.vals[n] = SymInt(z3.Int(w.fresh(n)))
            elif type(v) in (SymMap, Bag, NodeSet):
                self.vals[n] = v
            else:
                raise Unsupported(f"loop {spec.name} carries '{n}'")
        objs = spec.modifies()
        for o in objs:
            o.havoc()
        self.frame = w.frame(objs)
        w.assume(spec.inv(self.vals))
        w.feasible()
        self.before = spec.snapshot() if spec.snapshot else None
        self.first = True

    def value(self, n):
        return self.vals[n]

    def head(self):
        if self.first:
            self.first = False
            return True
        self.w.unchanged(self.frame, self.s.name)
        self.w.check(self.s.name, "preserved", self.s.inv(self.reader()))
        if self.s.progress:
            self.w.check(self.s.name, "terminates", self.s.progress(self.before, self.s.snapshot()))
        raise PathEnd()
