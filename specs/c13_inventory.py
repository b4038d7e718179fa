"""C13: inventories are validated, and the modules of a host are loaded in dependency order.
C14: the variables of a host."""
import builtins
import itertools
import os
import types

from pyvc import rt, sym
from pyvc.harness import harness
from specs.c12_scripts import allow_files
from specs.ops_files import scratch

import fora
import fora.inventory_wrapper as iw
import fora.loader as loader
import fora.connectors      # noqa: F401 (registers the connectors)
from fora.utils import FatalError

I = "fora.inventory_wrapper.InventoryWrapper."
FUN13 = [I + n for n in ("_preprocess_host_declarations", "_preprocess_group_declarations", "_ensure_used_groups_are_declared", "_merge_group_dependencies",
                         "_detect_self_dependencies", "_calculate_topological_order", "load", "load_group", "load_host", "instanciate_host")] + ["fora.utils.rank_sort", "fora.loader.load_inventory"]
FUN14 = FUN13[5:10] + [I + "_depends_on", "fora.types.ModuleWrapper.exported_variables", "fora.types.ModuleWrapper.wrap", "fora.types.ModuleWrapper.__getattribute__",
                       "fora.types.HostWrapper.__getattr__", "fora.types.HostWrapper.vars_hierarchical"]
G = ["a", "b", "c", "d"]


class Site:
    """A scratch inventory directory; module code calls back."""

    def __init__(self, groups=(), hosts=(), inventory="hosts = _pyvc_hosts\n"):
        self.dir = os.path.realpath(os.path.dirname(scratch("keep", b""))) + "/inv"
        self.files = []
        self.groups, self.hosts, self.inventory = groups, hosts, inventory

    def write(self, name, text):
        p = f"{self.dir}/{name}"
        old = None
        if os.path.exists(p):
            with open(p) as f:
                old = f.read()
        if old != text:
            with open(p, "w") as f:
                f.write(text)

    def __enter__(self):
        for d in ("", "/groups", "/hosts"):
            os.makedirs(self.dir + d, exist_ok=True)
        for d, want in (("groups", self.groups), ("hosts", self.hosts)):
            for n in os.listdir(f"{self.dir}/{d}"):
                if n.endswith(".py") and n[:-3] not in want:
                    os.unlink(f"{self.dir}/{d}/{n}")
            for n in want:
                self.write(f"{d}/{n}.py", f"import builtins\nbuiltins._pyvc_module({d!r}, {n!r}, globals())\n")
        self.write("inventory.py", "import builtins\nbuiltins._pyvc_inventory(globals())\n")
        allow_files()
        import uuid
        rt.ALLOW_REAL.add(uuid.uuid4)
        rt.ALLOW_REAL.add(os.getenv)
        return self

    def __exit__(self, *a):
        for n in ("_pyvc_module", "_pyvc_inventory"):
            if hasattr(builtins, n):
                delattr(builtins, n)

    def load(self, ctx, hosts, groups, on_module=None, variables=None):
        trace = []
        self.members = []

        def mod(kind, name, g):
            trace.append((kind, name, fora.group, fora.host))
            self.members.append({k: g.get(k) for k in ("name", "url", "groups")})
            if on_module:
                on_module(kind, name, g)

        def inv(g):
            g["hosts"] = hosts
            if groups is not None:
                g["groups"] = groups
            g.update(variables or {})
        builtins._pyvc_module, builtins._pyvc_inventory = mod, inv
        fora.group = fora.host = fora.script = None
        o = ctx.outcome(rt.call, loader.load_inventory, self.dir + "/inventory.py")
        return o, trace


def closure(edges, nodes):
    reach = {n: {b for a, b in edges if a == n} for n in nodes}
    for k in nodes:
        for i in nodes:
            if k in reach[i]:
                reach[i] |= reach[k]
    return reach        # n -> everything that has to come after n


def declare(ctx, n, kind, after, before):
    if kind == "decl":
        return iw.GroupDeclaration(name=n, after=list(after), before=list(before))
    if kind == "dict":
        d = {"name": n}
        if after:
            d["after"] = list(after)
        if before:
            d["before"] = list(before)
        return d
    return n


def graph(ctx, names, dense=1):
    """Declarations of `names` and the edges (x, y): y is loaded after x."""
    edges, decls = set(), []
    for n in names:
        after, before = [], []
        for m in names + (["all"] if n != "all" else []):
            r = ctx.choice(f"{n}-{m}", ["none"] + ["none"] * dense + ["after", "before"] if m != n else ["none"] * 6 * (1 + dense) + ["after"])
            if r == "after":
                after.append(m)
                edges.add((m, n))
            elif r == "before":
                before.append(m)
                edges.add((n, m))
        kind = ctx.choice(f"{n} given as", ["decl", "dict"]) if after or before else ctx.choice(f"{n} given as", ["str", "decl", "dict"])
        if after and ctx.choice("duplicates", [False, True]):
            after = after + after
        decls.append(declare(ctx, n, kind, after, before))
    return decls, edges


def ordered(names, edges):
    """All edges including the implicit ones of the `all` group; cyclic?"""
    full = set(edges) | {("all", n) for n in names if n != "all"}
    nodes = list(dict.fromkeys(list(names) + ["all"]))
    reach = closure(full, nodes)
    return reach, any(n in reach[n] for n in nodes)


def order_body(n_groups, dense):
    def body(ctx):
        names = G[:n_groups] + (["all"] if ctx.choice("all is declared", [False, True]) else [])
        shuffled = list(reversed(names)) if ctx.choice("reversed", [False, True]) else names
        decls, edges = graph(ctx, shuffled, dense)
        reach, cyclic = ordered(names, edges)
        hosts = []
        member = {}
        for h in ("h1", "h2"):
            gs = [g for g in G[:n_groups] if ctx.choice(f"{h} in {g}", [True, False])]
            if gs and ctx.choice("group listed twice", [False, False, True]):
                gs = gs + gs[:1]
            member[h] = set(gs) | {"all"}
            hosts.append(iw.HostDeclaration(url=f"ssh://{h}", groups=gs) if ctx.choice("host given as", ["decl", "dict"]) == "decl" else {"url": h, "groups": gs})
        with Site(groups=G + ["all"], hosts=["h1", "h2"]) as s:
            o, trace = s.load(ctx, hosts, decls)
        if cyclic:
            ctx.cover("refused")
            ctx.ensure("contradictory dependencies are refused", o.raised(FatalError), (edges, o))
            ctx.ensure("nothing is loaded from a contradictory inventory", not trace, trace)
            return
        ctx.cover("loaded")
        ctx.ensure("an inventory without contradictions is loaded", o.returned, (edges, o))
        if not o.returned:
            return
        pos = 0
        loaded = list(fora.inventory.loaded_hosts)
        ctx.ensure("every declared host is loaded", loaded == ["h1", "h2"], loaded)
        for h in loaded:
            mine = trace[pos:pos + len(member[h]) + 1]
            pos += len(member[h]) + 1
            got = [n for k, n, _, _ in mine if k == "groups"]
            ctx.ensure("a host loads exactly its groups, once", len(got) == len(set(got)) and set(got) == member[h], (got, member[h]))
            ctx.ensure("the host module is loaded last", mine and mine[-1][:2] == ("hosts", h), mine)
            ctx.ensure("groups are loaded after everything they depend on", not any(y in reach and x in reach[y] for x, y in itertools.combinations(got, 2)), (got, edges))
            ctx.ensure("the group module sees its group", all(g is not None and g.name == n for k, n, g, _ in mine if k == "groups"))
            ctx.ensure("the host module sees its host", mine and mine[-1][3] is not None and mine[-1][3] is fora.inventory.loaded_hosts[h])
        ctx.ensure("nothing else is loaded", pos == len(trace), trace)
        ctx.ensure("the members of the group or host are available to its module", all(
            m["name"] == n and (k == "groups" or m["url"] == f"ssh://{n}" and set(m["groups"] or ()) == member[n]) for (k, n, _, _), m in zip(trace, s.members)), s.members)
        ctx.ensure("no group or host is active after loading", fora.group is None and fora.host is None)
    return body


harness("C13", "order of two groups", functions=FUN13, covers=["refused", "loaded"], prove=False, enum=4000, samples=1500, seconds=60)(order_body(2, 0))
harness("C13", "order of three groups", functions=FUN13, covers=["refused", "loaded"], prove=False, enum=0, samples=3500, seconds=60)(order_body(3, 2))
harness("C13", "order of four groups", functions=FUN13, covers=["refused", "loaded"], prove=False, enum=0, samples=2500, seconds=60)(order_body(4, 5))


@harness("C13", "declarations", functions=FUN13[:3] + FUN13[6:7], covers=["refused", "loaded"], prove=False, enum=6000, samples=500, seconds=60)
def declarations(ctx):
    """Which declarations are accepted, and how hosts are named."""
    bad = None
    names = []
    hosts = []
    for i in range(2):
        form = ctx.choice(f"host {i}", ["url", "name only", "url and name", "same again", "nothing", "number", "unknown schema", "unknown group"])
        if form == "url":
            hosts.append(f"user@host{i}:22" if False else f"host{i}")
            names.append(f"host{i}")
        elif form == "name only":
            hosts.append({"name": f"n{i}"})
            names.append(f"n{i}")
        elif form == "url and name":
            hosts.append(iw.HostDeclaration(url=f"ssh://root@x{i}:22", name=f"m{i}"))
            names.append(f"m{i}")
        elif form == "same again":
            hosts.append(iw.HostDeclaration(url="ssh://root@host0:22"))
            names.append("host0")
        elif form == "nothing":
            hosts.append({})
            bad = bad or form
        elif form == "number":
            hosts.append(5)
            bad = bad or form
        elif form == "unknown schema":
            hosts.append("nope:x")
            bad = bad or form
        else:
            hosts.append({"name": f"u{i}", "groups": ["ghost"]})
            names.append(f"u{i}")
            form = "unknown group"
            unknown = True
    used_unknown = any(isinstance(h, dict) and h.get("groups") for h in hosts)
    g = ctx.choice("groups", ["not given", "empty", "a", "a twice", "number", "unknown after", "unknown before", "ghost"])
    groups = {"not given": None, "empty": [], "a": ["a"], "a twice": ["a", {"name": "a"}], "number": [7], "unknown after": [iw.GroupDeclaration("a", after=["zz"])],
              "unknown before": [{"name": "a", "before": ["zz"]}], "ghost": ["ghost"]}[g]
    if len(set(names)) < len(names):
        bad = bad or "duplicate host"
    if used_unknown and g not in ("not given", "ghost"):
        bad = bad or "unknown group"
    if g in ("a twice", "number", "unknown after", "unknown before"):
        bad = bad or g
    with Site() as s:
        o, trace = s.load(ctx, hosts, groups)
        if bad:
            ctx.cover("refused")
            ctx.ensure("an invalid inventory is refused", not o.returned, (bad, hosts, groups))
        else:
            ctx.cover("loaded")
            ctx.ensure("a valid inventory is loaded", o.returned, (hosts, groups, o))
            if o.returned:
                ctx.ensure("hosts have their declared or derived names", list(fora.inventory.loaded_hosts) == names and all(h.name == n for n, h in fora.inventory.loaded_hosts.items()), names)
                ctx.ensure("every host is in the group all", all("all" in h.groups for h in fora.inventory.loaded_hosts.values()))
                ctx.ensure("the inventory is ready", fora.inventory.is_initialized())


@harness("C13", "module files", functions=[I + "load_group", I + "load_host", I + "group_module_file", I + "host_module_file", I + "base_dir"], covers=["refused", "loaded"],
         prove=False, enum=3000, samples=100, seconds=60)
def module_files(ctx):
    """Explicit files have to exist, default files are optional."""
    gfile = ctx.choice("group file", [None, "groups/other.py", "missing.py"])
    hfile = ctx.choice("host file", [None, "hosts/other.py", "missing.py"])
    gdef = ctx.choice("default group file", [True, False])
    hdef = ctx.choice("default host file", [True, False])
    with Site(groups=["other"] + (["a"] if gdef else []), hosts=["other"] + (["h"] if hdef else [])) as s:
        o, trace = s.load(ctx, [iw.HostDeclaration(name="h", url="ssh:h", groups=["a"], file=hfile)], [iw.GroupDeclaration("a", file=gfile)])
    if "missing.py" in (gfile, hfile):
        ctx.cover("refused")
        ctx.ensure("an explicit module file that does not exist is refused", o.raised(FatalError), o)
        return
    ctx.cover("loaded")
    exp = ([("groups", "other")] if gfile else [("groups", "a")] if gdef else []) + ([("hosts", "other")] if hfile else [("hosts", "h")] if hdef else [])
    ctx.ensure("exactly the declared or default module files are loaded", o.returned and [t[:2] for t in trace] == exp, (o, trace, exp))


@harness("C13", "single host", functions=["fora.loader.load_inventory", I + "qualify_url"], covers=["loaded"], prove=False, enum=100, samples=20)
def single(ctx):
    url, name, full = ctx.choice("url", [("example.com", "example.com", "ssh://example.com"), ("ssh://root@h:22", "h", "ssh://root@h:22"), ("local:", "localhost", "local:"), ("local:x", "x", "local:x")])
    allow_files()
    fora.group = fora.host = fora.script = None
    o = ctx.outcome(rt.call, loader.load_inventory, url)
    ctx.cover("loaded")
    ctx.ensure("a single host is an inventory", o.returned and list(fora.inventory.loaded_hosts) == [name], o)
    if o.returned:
        ctx.ensure("a single host has its qualified url", fora.inventory.loaded_hosts[name].url == full, fora.inventory.loaded_hosts[name].url)


# ---------------------------------------------------------------------------------------------------- variables
def variables_body(n_groups, dense):
    def body(ctx):
        names = G[:n_groups]
        decls, edges = graph(ctx, names, dense) if ctx.choice("groups are declared", [True, True, False]) else (None, set())
        reach, cyclic = ordered(names, edges)
        ctx.assume(not cyclic)
        acts = {}
        ACT = ["none", "none", "define", "define", "define None", "append", "extend"]
        for m in names + ["all"]:
            acts[m] = ctx.choice(f"{m} does", ACT)
        acts["host"] = ctx.choice("host module does", ["none", "define", "append"])
        early = ctx.choice("host variable", ["none", "none", "list"])
        glob = ctx.choice("inventory variable", ["none", "none", "list"])
        hosts = [iw.HostDeclaration(url="ssh://h1", groups=list(names), vars={"x": ["early"]} if early != "none" else {}),
                 iw.HostDeclaration(url="ssh://h2", groups=[], vars={"y": 1})]
        log, missing = [], []

        def on(kind, name, g):
            who = name if kind == "groups" else "host" if name == "h1" else None
            if who is None:
                return
            if fora.inventory is None:
                return
            a = acts[who]
            rec = "h1" if not done[0] else "h2"
            if kind == "hosts":
                done[0] = True
            if rec != "h1":
                if who == "all":
                    return
            prev = g.get("x", missing)
            log.append((who, a, list(prev) if isinstance(prev, list) and prev is not missing else ("undefined" if prev is missing else prev)))
            if a == "define":
                g["x"] = [who]
            elif a == "define None":
                g["x"] = None
            elif a == "append" and isinstance(g.get("x"), list):
                g["x"].append(who)
            elif a == "extend" and isinstance(g.get("x"), list):
                g["x"] = g["x"] + [who]
        done = [False]
        with Site(groups=names + ["all"], hosts=["h1", "h2"]) as s:
            o, trace = s.load(ctx, hosts, decls, on, {"x": ["global"]} if glob != "none" else {})
        seq = [t[1] for t in trace if t[0] == "groups"][:len(names) + 1]
        # replay in the observed order (C13: it respects the dependencies)
        cur = ["early"] if early != "none" else ["global"] if glob != "none" else "undefined"
        touched = []            # (group, overwrote)
        must_fail, unclear = False, False
        if early != "none":
            touched.append(("early", "set"))
        elif glob != "none":
            touched.append(("all", "set"))
        exp = []
        for n in seq:
            a = acts[n]
            exp.append(cur)
            if a == "none" or (a in ("append", "extend") and not isinstance(cur, list)):
                continue
            if a == "define None" and cur is None:
                continue        # leaves the variable as it is
            over = a in ("define", "define None", "extend")
            new = [n] if a == "define" else None if a == "define None" else cur + [n]
            loose = [(m, k) for m, k in touched if m not in ("early", n) and n not in reach[m]]
            if over and loose:
                must_fail = True
            elif loose:
                unclear = unclear or any(k == "set" for m, k in loose) or new is None
            cur = new
            touched.append((n, "set" if over else "mod"))
        if must_fail:
            ctx.cover("conflict")
            ctx.ensure("overwriting a variable of a group without depending on it is refused", o.raised(FatalError), (edges, acts, seq, o))
            return
        if unclear:
            return
        ctx.cover("loaded")
        ctx.ensure("definitions in dependency order are accepted", o.returned, (edges, acts, seq, early, glob, o))
        if not o.returned:
            return
        seen = [x for w, a, x in log if w != "host"][:len(seq)]
        ctx.ensure("a group sees the variables of the modules before it", seen == exp, (seen, exp, seq, acts))
        if acts["host"] == "define":
            cur = ["host"]
        elif acts["host"] == "append" and isinstance(cur, list):
            cur = cur + ["host"]
        h = fora.inventory.loaded_hosts["h1"]
        got = rt.call(getattr, h, "x", "undefined")
        ctx.ensure("the last module decides the value", got == cur, (got, cur, seq, acts))
        hv = rt.callm(h, "vars_hierarchical")
        ctx.ensure("templates see the same value", hv.get("x", "undefined") == cur, hv.get("x"))
        h2 = fora.inventory.loaded_hosts["h2"]
        g2 = rt.call(getattr, h2, "x", "undefined")
        if glob == "none":
            ctx.ensure("a host has no variables of groups it is not in", g2 == "undefined", g2)
        ctx.ensure("host variables are available", h2.y == 1 and rt.call(getattr, h, "y", None) is None)
    return body


harness("C14", "variables with two groups", functions=FUN14, covers=["loaded", "conflict"], prove=False, enum=0, samples=4000, seconds=60)(variables_body(2, 1))
harness("C14", "variables with three groups", functions=FUN14, covers=["loaded", "conflict"], prove=False, enum=0, samples=5000, seconds=60)(variables_body(3, 1))
harness("C14", "variables with four groups", functions=FUN14, covers=["loaded", "conflict"], prove=False, enum=0, samples=4000, seconds=60)(variables_body(4, 1))
