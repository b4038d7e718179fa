"""C13: which declarations of hosts and groups are accepted and what becomes of them, for any number of them."""
import types

import z3

from pyvc import graphs, rt, sym
from pyvc.core import PathEnd
from pyvc.graphs import Nodes, Unsupported, World
from pyvc.harness import harness
from pyvc.rt import UNDEF
from specs.c13_inventory import I
from specs.c14_hosts import M, Poison

import fora.inventory_wrapper as iw


class Declared:
    """The declarations made so far: an unknown dict, in which an arbitrary name may already be."""
    sym_graph = True
    __class__ = property(lambda self: dict)

    def __init__(self, w):
        self.w, self.new, self.known = w, [], {}

    def has(self, k):
        k = sym.force(k)
        key = k.z if type(k) is sym.SymObj else k
        for kk, v in self.new:
            if kk is k or (type(kk) is str and kk == key):
                return True
        key = str(key)
        if key not in self.known:
            self.known[key] = bool(self.w.ctx.choose(2))
        return self.known[key]

    def sym_contains(self, k):
        return self.has(k)

    __contains__ = sym_contains

    def __setitem__(self, k, v):
        self.new.append((sym.force(k), v))

    def __getitem__(self, k):
        k = sym.force(k)
        for kk, v in reversed(self.new):
            if kk is k or (type(k) is str and type(kk) is str and kk == k):
                return v
        if not self.has(k):
            raise KeyError(k)
        raise Unsupported("an earlier declaration")

    def get(self, k, default=None):
        return self[k] if self.has(k) else default

    def setdefault(self, k, v):
        if self.has(k):
            return self[k]
        self[k] = v
        return v

    def __iter__(self):
        raise Unsupported("native iteration of the declarations")

    def __getattr__(self, n):
        raise Unsupported(f"declarations: {n}")


class Entries:
    """The list of declarations given by the inventory, of unknown length: one arbitrary entry, and what follows them all."""
    __class__ = property(lambda self: list)

    def __init__(self, s):
        self.s = s

    def sym_loop(self, lid, reader, names, lc):
        return EntriesLoop(self.s, reader, names)

    def __iter__(self):
        raise Unsupported("native iteration of the declarations")

    def __len__(self):
        raise Unsupported("native len() of the declarations")

    def __getattr__(self, n):
        raise Unsupported(f"list of declarations: {n}")


class EntriesLoop:
    cut = True

    def __init__(self, s, reader, names):
        self.s = s
        if s.looped:
            raise Unsupported("second loop over the declarations")
        s.looped = True
        entry = reader()
        self.vals = {n: UNDEF if entry.get(n, UNDEF) is UNDEF else Poison() for n in names}
        self.mode = s.w.ctx.choose(2)

    def value(self, n):
        return self.vals[n]

    def __iter__(self):
        s = self.s
        if self.mode == 1:
            s.after = True
            return
        e = s.entry()
        yield e
        s.done(e)
        raise PathEnd()


def members(l):
    if type(l) in (Nodes, graphs.NodeSet):
        return l.sym_list().pred
    if type(l) not in (list, set, tuple, rt.LSet):
        raise Unsupported("list of groups")
    zs = [graphs.as_node(y) for y in l]
    return lambda x: z3.Or(*[x == z for z in zs])


class Hosts:
    def __init__(self, ctx, w, inv):
        self.ctx, self.w, self.inv = ctx, w, inv
        self.looped = self.after = False
        w.named["all"] = w.node("all")
        self.G = z3.Function("given", sym.OBJ, z3.BoolSort())
        self.groups = Nodes(lambda x: self.G(x), "group")
        self.url = self.name = None
        self.decls = inv._host_decls = Declared(w)
        self.bad_url = False

    def entry(self):
        ctx = self.ctx
        self.form = ["text", "object", "dict", "number"][ctx.choose(4)]
        if self.form == "number":
            return 5
        if self.form == "text":
            self.url = "text url"
            self.groups = None
            return self.url
        self.url = [None, "some url"][ctx.choose(2)]
        self.name = [None, sym.SymObj(self.w.node("name"))][ctx.choose(2)]
        self.given_groups = bool(ctx.choose(2))
        self.file = [None, "file.py"][ctx.choose(2)]
        kw = {"url": self.url, "name": self.name, "file": self.file, "vars": {"v": 1}}
        if self.given_groups:
            kw["groups"] = self.groups
        else:
            self.groups = None
            kw["groups"] = []
        if self.form == "dict":
            kw = {k: v for k, v in kw.items() if v is not None and not (k == "groups" and not self.given_groups)}
            return kw
        self.object = iw.HostDeclaration(**kw)
        return self.object

    def qualify(self, f, url):
        return "qualified " + url

    def extract(self, f, url):
        if self.bad_url is False and self.w.ctx.choose(2):
            self.bad_url = url
            raise ValueError("invalid url")
        self.extracted = sym.SymObj(self.w.node("extracted"))
        self.extracted_from = url
        return self.extracted

    def done(self, e):
        """The entry was accepted."""
        w, d = self.w, self.decls.new
        ok = lambda label, c: w.ensure(label, z3.BoolVal(bool(c)))
        self.ctx.cover("accepted")
        ok("only texts, dicts and HostDeclarations are accepted", self.form != "number")
        ok("a host without url and name is refused", self.url is not None or self.name is not None)
        ok("a declaration is recorded once", len(d) == 1)
        k, v = d[0]
        ok("the declaration is a HostDeclaration", type(v) is iw.HostDeclaration)
        ok("the url is qualified", v.url == (None if self.url is None else "qualified " + self.url))
        if self.name is not None:
            ok("a given name is kept", k is self.name and v.name is self.name)
        else:
            ok("the name comes from the qualified url", k is self.extracted and v.name is self.extracted and self.extracted_from == v.url)
        ok("duplicate names are refused", self.decls.known.get(str(k.z)) is False)
        P, G, all_ = members(v.groups), self.G, self.w.named["all"]
        w.ensure_all("a host is in its groups and the group all, nothing else", 1, lambda x: P(x) == (z3.Or(G(x), x == all_) if self.groups is not None else x == all_))
        if self.form != "text":
            ok("file and variables are kept", v.file == self.file and v.vars == {"v": 1})
        else:
            ok("no file and no variables", v.file is None and v.vars == {})


@harness("C13", "declarations of hosts", functions=[I + "_preprocess_host_declarations"], covers=["accepted", "refused", "all accepted"], enum=0, samples=0, seconds=60, concrete=False,
         assumes=["qualify_url and extract_hostname are functions of the url (C16)", "one arbitrary entry stands for every entry; whether its name was declared before is arbitrary"])
def hosts(ctx):
    w = World(ctx)
    inv = iw.InventoryWrapper()
    s = Hosts(ctx, w, inv)
    inv.hosts = Entries(s)
    C = rt.CONTRACTS
    C[(M, "InventoryWrapper.qualify_url")] = s.qualify
    C[(M, "InventoryWrapper.extract_hostname")] = s.extract
    o = ctx.outcome(rt.call, inv._preprocess_host_declarations)
    if s.after:
        ctx.cover("all accepted")
        w.ensure("accepted declarations stay accepted", z3.BoolVal(o.returned and not s.decls.new))
        return
    ctx.cover("refused")
    duplicate = any(v for v in s.decls.known.values())
    w.ensure("only malformed or duplicate declarations and invalid urls are refused, as ValueErrors", z3.BoolVal(
        o.raised(ValueError) and (s.form == "number" or (s.url is None and s.name is None) or duplicate or (s.name is None and bool(s.bad_url)))))


class Groups:
    def __init__(self, ctx, w, inv):
        self.ctx, self.w, self.inv = ctx, w, inv
        self.looped = self.after = False
        for n in ("all", "early-explicits"):
            w.named[n] = w.node(n)
        w.add(w.named["all"] != w.named["early-explicits"])
        B = z3.BoolSort()
        self.A, self.Bf = z3.Function("after", sym.OBJ, B), z3.Function("before", sym.OBJ, B)
        self.decls = inv._group_decls = Declared(w)

    def entry(self):
        ctx, w = self.ctx, self.w
        self.form = ["text", "object", "dict", "number"][ctx.choose(4)]
        if self.form == "number":
            return 5
        self.is_all = bool(ctx.choose(2))
        self.lists = self.form != "text" and bool(ctx.choose(2))
        if self.is_all:
            self.name = "all"
        elif self.form == "text":
            self.name = "web"
            w.named["web"] = w.node("web")
        else:
            self.name = sym.SymObj(w.node("name"))
        if self.form == "text":
            return self.name
        kw = {"name": self.name}
        if self.lists:
            kw["after"], kw["before"] = Nodes(lambda x: self.A(x), "after"), Nodes(lambda x: self.Bf(x), "before")
        self.file = [None, "file.py"][ctx.choose(2)]
        if self.file:
            kw["file"] = self.file
        return kw if self.form == "dict" else iw.GroupDeclaration(**kw)

    def done(self, e):
        w, d = self.w, self.decls.new
        ok = lambda label, c: w.ensure(label, z3.BoolVal(bool(c)))
        self.ctx.cover("accepted")
        ok("only texts, dicts and GroupDeclarations are accepted", self.form != "number")
        ok("a declaration is recorded once, by its name", len(d) == 1 and (d[0][0] is self.name or d[0][0] == self.name) and d[0][1].name is d[0][0])
        k, v = d[0]
        ok("the declaration is a GroupDeclaration", type(v) is iw.GroupDeclaration)
        ok("duplicate names are refused", self.decls.known.get(str(k if type(k) is str else k.z)) is False)
        no = lambda x: z3.BoolVal(False)
        A, B = ((lambda x: self.A(x)), (lambda x: self.Bf(x))) if self.lists else (no, no)
        extra = w.named["early-explicits" if self.is_all else "all"]
        P, Q = members(v.after), members(v.before)
        w.ensure_all("a group comes after the declared ones and the group all (all after the variables of the host)", 1, lambda x: P(x) == z3.Or(A(x), x == extra))
        w.ensure_all("a group comes before the declared ones", 1, lambda x: Q(x) == B(x))
        if self.form != "text":
            ok("the file is kept", v.file == self.file)


@harness("C13", "declarations of groups", functions=[I + "_preprocess_group_declarations"], covers=["accepted", "refused", "all accepted", "implicit"], enum=0, samples=0, seconds=60, concrete=False,
         assumes=["one arbitrary entry stands for every entry; whether its name was declared before is arbitrary", "no group is named 'early-explicits'"])
def groups(ctx):
    w = World(ctx)
    inv = iw.InventoryWrapper()
    s = Groups(ctx, w, inv)
    inv.groups = Entries(s)
    o = ctx.outcome(rt.call, inv._preprocess_group_declarations)
    if not s.after:
        ctx.cover("refused")
        w.ensure("only malformed or duplicate declarations are refused, as ValueErrors", z3.BoolVal(o.raised(ValueError) and (s.form == "number" or any(s.decls.known.values()))))
        return
    ctx.cover("all accepted")
    w.ensure("accepted declarations stay accepted", z3.BoolVal(o.returned))
    new = dict((k, v) for k, v in s.decls.new)
    early, all_ = new.pop("early-explicits", None), new.pop("all", None)
    w.ensure("the group of the host's variables exists, and depends on nothing", z3.BoolVal(early is not None and early.name == "early-explicits" and early.after == [] and early.before == []))
    w.ensure("the group all exists: the declared one or an empty one", z3.BoolVal(not new and (all_ is None) == bool(s.decls.known.get("all"))))
    if all_ is not None:
        ctx.cover("implicit")
        w.ensure("the group all comes after the variables of the host", z3.BoolVal(all_.name == "all" and all_.after == ["early-explicits"] and all_.before == [] and all_.file is None))
