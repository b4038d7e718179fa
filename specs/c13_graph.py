"""C13: rank_sort and the order of the groups, for graphs of any size (and, concretely, for all small ones)."""
import z3

from pyvc import graphs, rt, sym
from pyvc.graphs import Each, Nodes, While, World
from pyvc.harness import harness
from specs.c13_inventory import I

import fora.inventory_wrapper as iw
import fora.utils
from fora.utils import CycleError

RS = "fora.utils:rank_sort"


class Graph:
    """Edge relation E over the vertices D; `depth`: the length of the longest path ending in a vertex (acyclic graphs)."""

    def __init__(self, w, acyclic):
        self.w = w
        self.D = z3.Function("D", sym.OBJ, z3.BoolSort())
        self.E = z3.Function("E", sym.OBJ, sym.OBJ, z3.BoolSort())
        self.d = z3.Function("depth", sym.OBJ, z3.IntSort())
        self.N = z3.Int("N")
        D, E, d, N = self.D, self.E, self.d, self.N
        w.add(N >= 0)
        w.fact(1, lambda x: z3.Implies(D(x), N >= 1))
        w.fact(2, lambda p, c: z3.Implies(E(p, c), z3.And(D(p), D(c))))
        if acyclic:
            w.fact(1, lambda x: z3.And(d(x) >= 0, z3.Implies(D(x), d(x) <= N - 1)))
            w.fact(2, lambda p, c: z3.Implies(E(p, c), d(c) >= d(p) + 1))

    def vertices(self):
        return Nodes(lambda x: self.D(x), "vertex", self.N)

    def preds_of(self, v):
        return Nodes(lambda x: self.E(x, v.z), "pred")

    def childs_of(self, v):
        return Nodes(lambda x: self.E(v.z, x), "child")


def loops(g, acyclic):
    """The invariants of rank_sort."""
    w, D, E, d = g.w, g.D, g.E, g.d

    def first(is_int, which):
        ms = [m for m in w.maps if m.is_int == is_int]
        if not ms:
            raise graphs.Unsupported("no map of ranks" if is_int else "no map of visited vertices")
        return ms[which]
    ranks = lambda: first(True, 0)
    visited = lambda: first(False, -1)

    queue, start = [], []

    def bag():
        return queue[-1]

    def begin():
        bs = [b for b in w.bags if b.k == 2]
        if not bs:
            raise graphs.Unsupported("no list of ranks to assign")
        queue.append(bs[-1])
        start.append(ranks().a)

    def base(R):
        return [("ranks are -1 or more", 1, lambda v: z3.Implies(D(v), z3.And(R[v] >= -1, R[v] <= (d(v) if acyclic else g.N))))]

    def outer(vals):
        R = ranks().a
        return base(R) + [("assigned ranks grow along edges", 2, lambda v, c: z3.Implies(z3.And(E(v, c), R[v] >= 0), R[c] > R[v]))]

    def up(vals):
        root, R, V = vals["root"], ranks().a, visited().a
        r = [("the current vertex has no rank and is visited", 0, z3.And(D(root.z), R[root.z] == -1, V[root.z]))]
        if acyclic:
            r.append(("visited vertices lie below", 1, lambda x: z3.Implies(z3.And(D(x), V[x]), z3.Or(x == root.z, d(x) > d(root.z)))))
        return r

    def bfs(vals):
        L, R, R0 = bag().rel, ranks().a, start[-1]
        return base(R) + [("queued pairs are edges", 2, lambda c, v: z3.Implies(L(c, v), z3.And(E(v, c), R[v] >= 0))),
                          ("edges grow or are queued", 2, lambda v, c: z3.Implies(z3.And(E(v, c), R[v] >= 0), z3.Or(R[c] > R[v], L(c, v)))),
                          ("ranks only grow", 1, lambda v: z3.Implies(D(v), R[v] >= R0[v]))]

    def fewer_unranked(R0, R):
        return [("ranks are never taken back", 1, lambda v: z3.Implies(z3.And(D(v), R0[v] >= 0), R[v] >= 0)),
                ("one more vertex gets a rank", 0, w.some(lambda x: z3.And(D(x), R0[x] < 0, R[x] >= 0)))]

    def fewer_unvisited(V0, V):
        return [("visited vertices stay visited", 1, lambda v: z3.Implies(z3.And(D(v), V0[v]), V[v])),
                ("one more vertex is visited", 0, w.some(lambda x: z3.And(D(x), z3.Not(V0[x]), V[x])))]

    def closer(b0, b1):
        (R0, (t0, a0)), (R, (t1, a1)) = b0, b1
        shorter = z3.And(z3.BoolVal(t1 == t0 + 1), a0 == a1, R == R0)
        return [("a rank grows, up to the number of vertices, or the queue shrinks", 0, z3.Or(shorter, w.some(lambda x: z3.And(D(x), R[x] > R0[x], R[x] <= g.N)))),
                ("no rank shrinks", 1, lambda x: z3.Implies(D(x), R[x] >= R0[x]))]

    rt.LOOPS[RS + "#1"] = While("outer loop", outer, lambda: w.objects(), snapshot=lambda: ranks().a, progress=fewer_unranked)
    rt.LOOPS[RS + "#2"] = While("walk to a root", up, lambda: [visited()], snapshot=lambda: visited().a, progress=fewer_unvisited)
    rt.LOOPS[RS + "#3"] = While("assignment of ranks", bfs, lambda: [ranks(), bag()], begin, snapshot=lambda: (ranks().a, bag().ops), progress=closer)

    def grows():
        R = ranks().a
        return lambda v, c: z3.Implies(E(v, c), R[c] > R[v])
    all_edges = Each("final check", grows, 1)

    def child_grows():
        if all_edges.element is None:
            raise graphs.Unsupported("loop over the successors outside the loop over the vertices")
        v, G = all_edges.element, grows()
        return lambda c: G(v, c)
    rt.LOOPS[RS + "#4"] = all_edges
    rt.LOOPS[RS + "#5"] = Each("final check of a vertex", child_grows)


def longest(n, edges):
    """Lengths of the longest paths ending in each vertex; None if there is a cycle."""
    d = {v: 0 for v in range(n)}
    for _ in range(n + 1):
        new = {v: max([0] + [d[p] + 1 for p, c in edges if c == v]) for v in range(n)}
        if new == d:
            return d
        d = new
    return None


def concrete_graph(ctx, n_max):
    n = ctx.choice("vertices", list(range(1, n_max + 1)))
    mode = ctx.choice("edges", ["any", "forward", "backward"])
    edges = []
    for a in range(n):
        for b in range(n):
            if mode == "any" or a != b and (a < b) == (mode == "forward"):
                if ctx.choice(f"{a}->{b}", [False, True]):
                    edges.append((a, b))
    return n, edges


@harness("C13", "rank_sort", functions=["fora.utils.rank_sort"], covers=["acyclic", "cyclic", "any graph"], enum=1500, samples=1500, seconds=100,
         assumes=["rank_sort: a loop ends if every iteration enlarges a subset of the (finitely many) vertices, raises a bounded rank or, leaving the ranks alone, shortens the queue", "rank_sort: vertices can be iterated repeatedly; preds_of and childs_of are functions, inverse to each other"])
def rank_sort(ctx):
    """Acyclic graphs: accepted; cyclic ones: refused with CycleError; ranks are the lengths of longest paths."""
    if not ctx.symbolic:
        n, edges = concrete_graph(ctx, 5)
        d = longest(n, edges)
        o = ctx.outcome(fora.utils.rank_sort, list(range(n)), lambda v: [p for p, c in edges if c == v], lambda v: [c for p, c in edges if p == v])
        if d is None:
            ctx.cover("cyclic")
            ctx.ensure("a cyclic graph is refused", o.raised(CycleError), (n, edges, o))
        else:
            ctx.cover("acyclic")
            ctx.ensure("an acyclic graph is accepted", o.returned, (n, edges, o))
            ctx.ensure("ranks are the lengths of the longest paths", o.returned and o.value == d, (n, edges, o, d))
        return
    acyclic = ctx.choice("graph", [True, False])
    w = World(ctx)
    g = Graph(w, acyclic)
    loops(g, acyclic)
    o = ctx.outcome(rt.call, fora.utils.rank_sort, g.vertices(), g.preds_of, g.childs_of)
    if not o.returned:
        # a cyclic graph may only be refused this way, an acyclic one not at all
        w.ensure("an acyclic graph is accepted; errors are CycleErrors", z3.BoolVal(not acyclic and o.raised(CycleError)))
        ctx.cover("cyclic")
        return
    R = o.value
    if type(R) is not graphs.SymMap or not R.is_int:
        raise graphs.Unsupported("result of rank_sort")
    A, D, E, d = R.a, g.D, g.E, g.d
    w.ensure_all("the result covers exactly the vertices", 1, lambda x: R.dom(x) == D(x))
    # a graph with a cycle has no such ranks, so it was refused
    w.ensure_all("ranks grow along every edge", 2, lambda p, c: z3.Implies(E(p, c), A[c] > A[p]))
    if acyclic:
        w.ensure_all("every vertex has a rank", 1, lambda x: z3.Implies(D(x), A[x] >= 0))
        w.ensure_all("a rank is at most the length of the longest path", 1, lambda x: z3.Implies(D(x), A[x] <= d(x)))
        # depth is exact: positive only if a predecessor is one less deep
        x = w.node("x")
        p = w.node("deepest")
        w.add(z3.And(D(x), z3.Or(d(x) == 0, z3.And(E(p, x), d(p) == d(x) - 1))))
        w.add(z3.Implies(d(x) > 0, A[p] >= d(p)))        # induction over the depth
        w.ensure("a rank is at least the length of the longest path (step of an induction over it)", A[x] >= d(x))
        ctx.cover("acyclic")
    ctx.cover("any graph")


# ---------------------------------------------------------------------------------------------------- the order of the groups
class Decl:
    """The declaration of one group: what it is loaded after and before."""
    sym_graph = True

    def __init__(self, g, v):
        self.name = v
        self.after = g.preds_of(v)
        self.before = g.childs_of(v)
        self.file = None


class Decls:
    """The declarations of all groups, with merged dependencies."""
    __class__ = property(lambda self: dict)
    sym_graph = True

    def __init__(self, g):
        self.g = g

    def __getitem__(self, k):
        k = sym.force(k)
        if type(k) is not sym.SymObj:
            raise graphs.Unsupported("group that is not a name")
        if not bool(sym.SymBool(self.g.D(k.z))):
            raise KeyError(k)
        return Decl(self.g, k)

    def sym_contains(self, k):
        return sym.SymBool(self.g.D(sym.force(k).z))

    __contains__ = sym_contains

    def keys(self):
        return self.g.vertices()

    sym_list = keys

    def sym_len(self):
        return sym.SymInt(self.g.N)

    def sym_comp(self, *a, **k):
        return self.keys().sym_comp(*a, **k)

    def sym_loop(self, *a):
        return self.keys().sym_loop(*a)

    def __iter__(self):
        raise graphs.Unsupported("native iteration of the declarations")


def sort_contract(g, acyclic):
    """rank_sort by its contract (proved above): called on a graph given by mutually inverse functions it returns the
    lengths of the longest paths, or raises CycleError if the graph is cyclic."""
    w, d = g.w, g.d
    results = []

    def model(f, vertices, preds_of, childs_of):
        vertices = sym.force(vertices)
        if type(vertices) is not Nodes:
            raise graphs.Unsupported("vertices of rank_sort")
        V = vertices.pred

        def relation(fn):
            e, r = w.generic(V, lambda v: rt.call(fn, v))
            if type(r) is not Nodes:
                raise graphs.Unsupported("neighbours of a vertex")
            P = r.pred
            return lambda v, x: graphs.subst(P(x), e, v)
        P, C = relation(preds_of), relation(childs_of)
        E = lambda p, c: z3.And(V(p), C(p, c))
        w.ensure_all("rank_sort: predecessors and successors are inverse to each other and within the vertices", 2,
                     lambda p, c: z3.And(E(p, c) == z3.And(V(c), P(c, p)), z3.Implies(E(p, c), V(c))))
        a, b = w.node("from"), w.node("to")
        if not (acyclic and (ctx_must(w, z3.Implies(E(a, b), d(b) > d(a))) or ctx_must(w, z3.Implies(E(a, b), d(b) < d(a))))):
            if w.ctx.choose(2):
                raise CycleError("cyclic", vertices)
        R = graphs.SymMap(V, z3.Const(w.fresh("ranks"), z3.ArraySort(sym.OBJ, z3.IntSort())))
        A = R.a
        w.fact(1, lambda x: z3.Implies(V(x), A[x] >= 0))
        w.fact(2, lambda p, c: z3.Implies(E(p, c), A[c] > A[p]))
        top = z3.Int(w.fresh("highest"))
        m = w.node("highest")          # a finite nonempty map has a maximum
        w.add(z3.Implies(w.nonempty, z3.And(V(m), A[m] == top)))
        w.fact(1, lambda x: z3.Implies(V(x), A[x] <= top))
        for A0, E0, V0, top0 in results:
            a, b = w.node("a"), w.node("b")
            if ctx_must(w, z3.And(E0(a, b) == E(b, a), V0(a) == V(a))):
                # lemma: the ranks of a vertex in both directions add up to at most the length of the longest path
                for X, Y, EX, T in ((A0, A, E0, top), (A, A0, E, top0)):
                    v, p = w.node("v"), w.node("p")
                    hyp = z3.And(V(v), z3.Or(X[v] == 0, z3.And(EX(p, v), X[v] == X[p] + 1, X[p] + Y[p] <= T)))
                    w.ensure("lemma: ranks from both sides add up to at most the highest (step of an induction over one of them)", z3.Implies(hyp, X[v] + Y[v] <= T))
                    w.fact(1, lambda x, X=X, Y=Y, T=T: z3.Implies(V(x), X[x] + Y[x] <= T))
        results.append((A, E, V, top))
        return R
    return model


def ctx_must(w, z):
    return w.ctx.must(z)


@harness("C13", "order of the groups", functions=[I + "_calculate_topological_order"], covers=["ordered", "refused"], enum=1500, samples=800, seconds=60,
         assumes=["group names: dependencies merged before (contract of _merge_group_dependencies: bounded)", "_calculate_topological_order: induction over ranks; list.sort orders by the key"])
def group_order(ctx):
    inv = iw.InventoryWrapper()
    if not ctx.symbolic:
        n, edges = concrete_graph(ctx, 4)
        names = [f"g{i}" for i in range(n)]
        order = names if ctx.choice("declared", [True, False]) else list(reversed(names))
        inv._group_decls = {x: iw.GroupDeclaration(name=x, after=[names[p] for p, c in edges if names[c] == x], before=[names[c] for p, c in edges if names[p] == x]) for x in order}
        d = longest(n, edges)
        o = ctx.outcome(inv._calculate_topological_order)
        if d is None:
            ctx.cover("refused")
            ctx.ensure("contradictory dependencies are refused", o.raised(ValueError), (edges, o))
            return
        ctx.cover("ordered")
        T, lo, hi = inv._topological_order, inv._group_ranks_min, inv._group_ranks_max
        ctx.ensure("dependencies without contradictions are accepted", o.returned, (edges, o))
        if o.returned:
            ctx.ensure("the order has every group once", sorted(T) == names, T)
            ctx.ensure("a group comes after everything it depends on", all(T.index(names[p]) < T.index(names[c]) for p, c in edges), (T, edges))
            ctx.ensure("the ranks of a group are a range within which it can be placed", all(0 <= lo[x] <= hi[x] for x in names) and
                       all(lo[names[p]] < lo[names[c]] and hi[names[p]] < hi[names[c]] for p, c in edges), (lo, hi))
        return
    acyclic = ctx.choice("graph", [True, False])
    w = World(ctx)
    g = Graph(w, acyclic)
    w.nonempty = z3.BoolVal(True)
    top = w.node("all")
    w.add(g.D(top))                 # at least the group `all` is declared
    rt.CONTRACTS[("fora.utils", "rank_sort")] = sort_contract(g, acyclic)
    inv._group_decls = Decls(g)
    o = ctx.outcome(rt.call, inv._calculate_topological_order)
    if not o.returned:
        w.ensure("dependencies without contradictions are accepted; contradictions are ValueErrors", z3.BoolVal(not acyclic and o.raised(ValueError)))
        ctx.cover("refused")
        return
    T, lo, hi = inv._topological_order, inv._group_ranks_min, inv._group_ranks_max
    if type(T) is not Nodes or T.order is None or type(lo) is not graphs.SymMap or type(hi) is not graphs.SymMap:
        raise graphs.Unsupported("result of _calculate_topological_order")
    pos, P, D, E = T.order, T.pred, g.D, g.E
    w.ensure_all("the order has every group", 1, lambda x: P(x) == D(x))
    w.ensure_all("a group comes after everything it depends on", 2, lambda p, c: z3.Implies(E(p, c), pos(p) < pos(c)))
    w.ensure_all("every group has ranks", 1, lambda x: z3.Implies(D(x), z3.And(lo.dom(x), hi.dom(x))))
    w.ensure_all("the ranks of a group are a range", 1, lambda x: z3.Implies(D(x), z3.And(0 <= lo.a[x], lo.a[x] <= hi.a[x])))
    w.ensure_all("ranks grow with dependencies", 2, lambda p, c: z3.Implies(E(p, c), z3.And(lo.a[p] < lo.a[c], hi.a[p] < hi.a[c])))
    ctx.cover("ordered")


# ---------------------------------------------------------------------------------------------------- transitive dependencies
DEP = I + "_depends_on"


@harness("C14", "transitive dependencies", functions=[DEP], covers=["depends", "independent"], enum=1500, samples=800, seconds=60,
         assumes=["_depends_on: the transitive closure is the least set closed under the dependencies (induction); a finite set cannot grow forever"])
def depends_on(ctx):
    inv = iw.InventoryWrapper()
    if not ctx.symbolic:
        n, edges = concrete_graph(ctx, 4)
        inv._group_decls = {x: iw.GroupDeclaration(name=x, after=[p for p, c in edges if c == x], before=[c for p, c in edges if p == x]) for x in range(n)}
        reach = {x: {p for p, c in edges if c == x} for x in range(n)}
        for _ in range(n):
            reach = {x: reach[x] | {z for y in reach[x] for z in reach[y]} for x in range(n)}
        for x in range(n):
            for y in range(n):
                o = ctx.outcome(rt.call, inv._depends_on, x, y)
                ctx.cover("depends" if y in reach[x] else "independent")
                ctx.ensure("a group depends on another iff a chain of dependencies leads there", o.returned and o.value is (y in reach[x]), (edges, x, y, o))
        return
    w = World(ctx)
    g = Graph(w, False)
    D, E = g.D, g.E
    x0, other = w.node("group"), w.node("other")
    w.add(D(x0))
    reach = z3.Function("Reach", sym.OBJ, z3.BoolSort())        # the least set with:
    w.fact(1, lambda y: z3.Implies(E(y, x0), reach(y)))
    w.fact(2, lambda x, y: z3.Implies(z3.And(reach(x), E(y, x)), reach(y)))
    inv._group_decls = Decls(g)

    def state():
        if len(w.sets) != 1 or len(w.bags) != 1 or w.bags[0].k != 1:
            raise graphs.Unsupported("state of the search")
        return w.sets[0], w.bags[0]

    def common(extra):
        s, b = state()
        V, Q = s.a, b.rel
        src = lambda x: z3.Or(x == x0, V[x])
        return [("groups to look at are known", 1, lambda x: z3.Implies(Q(x), z3.And(D(x), src(x)))),
                ("visited groups are dependencies", 1, lambda x: z3.Implies(V[x], z3.And(D(x), reach(x)))),
                ("the other group was not visited", 0, z3.Not(V[other])),
                ("what a known group depends on is visited, or still to be looked at", 2, lambda x, y: z3.Implies(z3.And(src(x), E(y, x)), z3.Or(V[y], Q(x), extra(x))))]
    entry = {}

    def inner(done):
        s, b = state()
        if not hasattr(b, "last"):
            raise graphs.Unsupported("no group was taken from the list")
        cur, V = b.last[0], s.a
        V0, added = entry["inner"]
        return common(lambda x: x == cur) + [("the group looked at is known", 0, z3.Or(cur == x0, V[cur])),
                                             ("processed dependencies are visited", 1, lambda y: z3.Implies(done(y), V[y])),
                                             ("visited groups stay visited", 1, lambda y: z3.Implies(V0[y], V[y])),
                                             ("nothing is to be looked at twice", "some", (b.ops[1] == added, lambda y: z3.And(D(y), V[y], z3.Not(V0[y]))))]
    rt.LOOPS[f"fora.inventory_wrapper:InventoryWrapper._depends_on#1"] = While(
        "search", lambda vals: common(lambda x: z3.BoolVal(False)), lambda: list(state()),
        snapshot=lambda: (state()[0].a, state()[1].ops),
        progress=lambda a, b: [("visited groups stay visited", 1, lambda y: z3.Implies(a[0][y], b[0][y])),
                               ("more groups are visited or fewer are left to look at", "some",
                                (z3.And(z3.BoolVal(b[1][0] == a[1][0] + 1), b[1][1] == a[1][1]), lambda y: z3.And(D(y), b[0][y], z3.Not(a[0][y]))))])
    rt.LOOPS[f"fora.inventory_wrapper:InventoryWrapper._depends_on#2"] = graphs.EachChanging(
        "dependencies of a group", inner, lambda: list(state()), lambda: entry.update(inner=(state()[0].a, state()[1].ops[1])))
    o = ctx.outcome(rt.call, inv._depends_on, sym.SymObj(x0), sym.SymObj(other))
    w.ensure("the question is always answered", z3.BoolVal(o.returned and type(o.value) is bool))
    if o.value:
        ctx.cover("depends")
        w.ensure("a group said to depend on another does", reach(other))
        return
    ctx.cover("independent")
    V = state()[0].a
    # the visited groups contain the least closed set, and not the other group
    w.ensure_all("the visited groups are closed under the dependencies", 2, lambda x, y: z3.Implies(z3.And(z3.Or(x == x0, V[x]), E(y, x)), V[y]))
    w.ensure("a group said not to depend on another is not reached", z3.Not(V[other]))


# ---------------------------------------------------------------------------------------------------- merged dependencies
class MutDecl:
    sym_graph = True

    def __init__(self, ds, v):
        object.__setattr__(self, "ds", ds)
        object.__setattr__(self, "name", v)
        object.__setattr__(self, "file", None)

    @property
    def after(self):
        return graphs.ListOf(self.ds.after, self.name.z)

    @property
    def before(self):
        return graphs.ListOf(self.ds.before, self.name.z)

    def __setattr__(self, n, v):
        if n not in ("after", "before"):
            raise graphs.Unsupported(f"change of a declaration's {n}")
        getattr(self.ds, n).assign(self.name.z, v)


class MutDecls(Decls):
    __class__ = property(lambda self: dict)

    def __init__(self, g, after, before):
        Decls.__init__(self, g)
        self.after, self.before = graphs.Rel(after), graphs.Rel(before)

    def __getitem__(self, k):
        return MutDecl(self, Decls.__getitem__(self, k).name)

    def values(self):
        return DeclValues(self)

    def items(self):
        return DeclValues(self, True)


class DeclValues:
    """decls.values() (or items()): the declarations of all groups."""
    sym_graph = True

    def __init__(self, ds, items=False):
        self.ds, self.items = ds, items

    def wrap(self, v):
        return (v, MutDecl(self.ds, v)) if self.items else MutDecl(self.ds, v)

    def sym_loop(self, *a):
        inner = self.ds.keys().sym_loop(*a)
        return _Wrapped(inner, self.wrap)

    def sym_any(self, f=None, cond=None):
        if f is None:
            raise graphs.Unsupported("truth of a declaration")
        return self.ds.keys().sym_any(lambda v: f(self.wrap(v)), (lambda v: cond(self.wrap(v))) if cond else None)

    def __iter__(self):
        raise graphs.Unsupported("native iteration of the declarations")


class _Wrapped:
    cut = True

    def __init__(self, inner, wrap):
        self.inner, self.wrap = inner, wrap

    def value(self, n):
        return self.inner.value(n)

    def __iter__(self):
        for v in self.inner:
            yield self.wrap(v)


MERGE = "fora.inventory_wrapper:InventoryWrapper._merge_group_dependencies"


def dependency_lists(ctx, n):
    names = [f"g{i}" for i in range(n)]
    after = {x: [y for y in names if ctx.choice(f"{x} after {y}", [False, False, True])] for x in names}
    before = {x: [y for y in names if ctx.choice(f"{x} before {y}", [False, False, True])] for x in names}
    return names, after, before


@harness("C13", "merged dependencies", functions=[I + "_merge_group_dependencies"], covers=["merged"], enum=1500, samples=800, seconds=60,
         assumes=["the lists of two declarations are different objects (made by _preprocess_group_declarations)"])
def merge(ctx):
    inv = iw.InventoryWrapper()
    if not ctx.symbolic:
        names, after, before = dependency_lists(ctx, ctx.choice("groups", [1, 2, 3]))
        inv._group_decls = {x: iw.GroupDeclaration(name=x, after=list(after[x]), before=list(before[x])) for x in names}
        o = ctx.outcome(inv._merge_group_dependencies)
        ctx.cover("merged")
        want = {(x, y) for x in names for y in names if y in after[x] or x in before[y]}
        ds = inv._group_decls
        ctx.ensure("no error", o.returned, o)
        ctx.ensure("`after` is what was declared on either side", list(ds) == names and all(sorted(ds[x].after) == [y for y in names if (x, y) in want] for x in names), (after, before, ds))
        ctx.ensure("`before` is the reverse of `after`", all(sorted(ds[x].before) == [y for y in names if (y, x) in want] for x in names), (after, before, ds))
        return
    w = World(ctx)
    g = Graph(w, False)
    D = g.D
    A0 = z3.Function("after", sym.OBJ, sym.OBJ, z3.BoolSort())
    B0 = z3.Function("before", sym.OBJ, sym.OBJ, z3.BoolSort())
    w.fact(2, lambda x, y: z3.Implies(z3.Or(A0(x, y), B0(x, y)), z3.And(D(x), D(y))))
    ds = MutDecls(g, lambda x, y: A0(x, y), lambda x, y: B0(x, y))
    inv._group_decls = ds
    both = lambda x, y: z3.Or(A0(x, y), B0(y, x))
    at = {}

    def eq2(label, rel, f):
        a = rel.a
        return (label, 2, lambda x, y: a(x, y) == f(x, y))

    def inner(n, rel, src):
        """for y in group.<src>: decls[y].<rel>.append(group.name)"""
        r = getattr(ds, rel)

        def inv_(done):
            old, owner = at[n]
            return [eq2(f"{rel}: the group was added to the processed ones", r, lambda x, y: z3.Or(old(x, y), z3.And(y == owner, done(x))))]
        rt.LOOPS[f"{MERGE}#{n}"] = graphs.EachChanging(f"loop {n}", inv_, lambda: [r], lambda: at.__setitem__(n, (r.a, owners[-1])))
    owners = []

    def out(n, rels, inv_):
        rt.LOOPS[f"{MERGE}#{n}"] = graphs.EachChanging(f"loop {n}", inv_, lambda: [getattr(ds, r) for r in rels])
    wrap0 = DeclValues.wrap

    class Values(DeclValues):
        def wrap(self, v):
            owners.append(v.z)
            return wrap0(self, v)
    ds.values = lambda: Values(ds)
    out(1, ["after"], lambda done: [eq2("after: completed by the processed groups", ds.after, lambda x, y: z3.Or(A0(x, y), z3.And(done(y), B0(y, x))))])
    inner(2, "after", "before")
    out(3, ["after", "before"], lambda done: [eq2("after is complete", ds.after, both),
                                              eq2("before: emptied for the processed groups", ds.before, lambda x, y: z3.And(B0(x, y), z3.Not(done(x))))])
    out(4, ["before"], lambda done: [eq2("before: the reverse of the processed groups' after", ds.before, lambda x, y: z3.And(done(y), both(y, x)))])
    inner(5, "before", "after")
    out(6, ["before"], lambda done: [eq2("before: the reverse of after", ds.before, lambda x, y: both(y, x))])
    o = ctx.outcome(rt.call, inv._merge_group_dependencies)
    w.ensure("no error", z3.BoolVal(o.returned))
    ctx.cover("merged")
    w.ensure_all("`after` is what was declared on either side", 2, lambda x, y: ds.after.a(x, y) == both(x, y))
    w.ensure_all("`before` is the reverse of `after`", 2, lambda x, y: ds.before.a(x, y) == both(y, x))


# ---------------------------------------------------------------------------------------------------- validation
def raw_lists(ctx, w, closed):
    g = Graph(w, False)
    A = z3.Function("after", sym.OBJ, sym.OBJ, z3.BoolSort())
    B = z3.Function("before", sym.OBJ, sym.OBJ, z3.BoolSort())
    if closed:
        w.fact(2, lambda x, y: z3.Implies(z3.Or(A(x, y), B(x, y)), z3.And(g.D(x), g.D(y))))
    return g, A, B, MutDecls(g, lambda x, y: A(x, y), lambda x, y: B(x, y))


def loop_element(n, qual):
    e = rt.LOOPS[f"fora.inventory_wrapper:InventoryWrapper.{qual}#{n}"].element
    if e is None:
        raise graphs.Unsupported("order of the loops")
    return e


@harness("C13", "self dependencies", functions=[I + "_detect_self_dependencies"], covers=["accepted", "refused"], enum=1000, samples=500)
def self_dependencies(ctx):
    inv = iw.InventoryWrapper()
    if not ctx.symbolic:
        names, after, before = dependency_lists(ctx, ctx.choice("groups", [1, 2, 3]))
        inv._group_decls = {x: iw.GroupDeclaration(name=x, after=list(after[x]), before=list(before[x])) for x in names}
        o = ctx.outcome(inv._detect_self_dependencies)
        bad = any(x in after[x] or x in before[x] for x in names)
        ctx.cover("refused" if bad else "accepted")
        ctx.ensure("exactly the groups depending on themselves are refused", o.raised(ValueError) if bad else o.returned, (after, before, o))
        return
    w = World(ctx)
    g, A, B, ds = raw_lists(ctx, w, True)
    inv._group_decls = ds
    rt.LOOPS["fora.inventory_wrapper:InventoryWrapper._detect_self_dependencies#1"] = Each("groups", lambda: lambda x: z3.Not(z3.Or(A(x, x), B(x, x))))
    o = ctx.outcome(rt.call, inv._detect_self_dependencies)
    if o.returned:
        ctx.cover("accepted")
        w.ensure_all("no group depends on itself", 1, lambda x: z3.Implies(g.D(x), z3.Not(z3.Or(A(x, x), B(x, x)))))
    else:
        ctx.cover("refused")
        w.ensure("only a group depending on itself is refused", z3.And(z3.BoolVal(o.raised(ValueError)), w.some(lambda x: z3.And(g.D(x), z3.Or(A(x, x), B(x, x))))))


class HostStub:
    sym_graph = True
    file = None

    def __init__(self, h, H):
        self.name, self.groups = h, Nodes(lambda y: H(h.z, y), "group")


class HostDecls:
    sym_graph = True
    __class__ = property(lambda self: dict)

    def __init__(self, hosts, H):
        self.hosts, self.H = hosts, H

    def values(self):
        return self

    def sym_loop(self, *a):
        return _Wrapped(Nodes(lambda x: self.hosts(x), "host").sym_loop(*a), lambda h: HostStub(h, self.H))

    def __iter__(self):
        raise graphs.Unsupported("native iteration of the hosts")


@harness("C13", "used groups are declared", functions=[I + "_ensure_used_groups_are_declared"], covers=["accepted", "refused"], enum=1500, samples=500)
def used_groups(ctx):
    inv = iw.InventoryWrapper()
    if not ctx.symbolic:
        names = ["a", "b", "ghost"]
        declared = names[:ctx.choice("declared", [1, 2, 3])]
        pick = lambda label: [y for y in names if ctx.choice(f"{label} {y}", [False, False, True])]
        inv._group_decls = {x: iw.GroupDeclaration(name=x, after=pick(f"{x} after"), before=pick(f"{x} before")) for x in declared}
        inv._host_decls = {h: iw.HostDeclaration(name=h, groups=pick(h)) for h in ["h1", "h2"][:ctx.choice("hosts", [0, 1, 2])]}
        used = {y for d in inv._group_decls.values() for y in d.after + d.before} | {y for h in inv._host_decls.values() for y in h.groups}
        o = ctx.outcome(inv._ensure_used_groups_are_declared)
        ctx.cover("accepted" if used <= set(declared) else "refused")
        ctx.ensure("exactly the inventories using undeclared groups are refused", o.returned if used <= set(declared) else o.raised(ValueError), (declared, used, o))
        return
    w = World(ctx)
    g, A, B, ds = raw_lists(ctx, w, False)
    D = g.D
    hosts = z3.Function("Host", sym.OBJ, z3.BoolSort())
    H = z3.Function("in_group", sym.OBJ, sym.OBJ, z3.BoolSort())
    inv._group_decls = ds
    inv._host_decls = HostDecls(hosts, H)
    Q = "_ensure_used_groups_are_declared"
    L = f"fora.inventory_wrapper:InventoryWrapper.{Q}#"
    rt.LOOPS[L + "1"] = Each("hosts", lambda: lambda h, y: z3.Implies(H(h, y), D(y)), 1)
    rt.LOOPS[L + "2"] = Each("groups of a host", lambda: (lambda h: lambda y: z3.Implies(H(h, y), D(y)))(loop_element(1, Q)))
    rt.LOOPS[L + "3"] = Each("groups", lambda: lambda x, y: z3.Implies(z3.Or(A(x, y), B(x, y)), D(y)), 1)
    rt.LOOPS[L + "4"] = Each("after", lambda: (lambda x: lambda y: z3.Implies(A(x, y), D(y)))(loop_element(3, Q)))
    rt.LOOPS[L + "5"] = Each("before", lambda: (lambda x: lambda y: z3.Implies(B(x, y), D(y)))(loop_element(3, Q)))
    o = ctx.outcome(rt.call, inv._ensure_used_groups_are_declared)
    if o.returned:
        ctx.cover("accepted")
        w.ensure_all("every group of a host is declared", 2, lambda h, y: z3.Implies(z3.And(hosts(h), H(h, y)), D(y)))
        w.ensure_all("every group a group depends on is declared", 2, lambda x, y: z3.Implies(z3.And(D(x), z3.Or(A(x, y), B(x, y))), D(y)))
    else:
        ctx.cover("refused")
        ns = w.nodes
        w.ensure("only an undeclared group is refused", z3.And(z3.BoolVal(o.raised(ValueError)), z3.Or(*[
            z3.And(z3.Not(D(y)), z3.Or(z3.And(hosts(x), H(x, y)), z3.And(D(x), z3.Or(A(x, y), B(x, y))))) for x in ns for y in ns])))
