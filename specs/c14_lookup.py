"""C13: the steps of loading an inventory.  C14: what a host, its modules and templates see of a variable."""
import types

import z3

from pyvc import rt, sym
from pyvc.graphs import Nodes, Unsupported, World
from pyvc.harness import harness
from pyvc.rt import UNDEF
from specs.c13_inventory import I
from specs.c14_hosts import M

import fora
import fora.inventory_wrapper as iw
import fora.loader
import fora.types
from fora.utils import FatalError

T = "fora.types."


class Value:
    pass


# ---------------------------------------------------------------------------------------------------- variables
class World_:
    """The active script and group, restored afterwards."""

    def __enter__(self):
        self.old = fora.script, fora.group, fora.host
        fora.script = fora.group = fora.host = None

    def __exit__(self, *a):
        fora.script, fora.group, fora.host = self.old


PRIVATE = ["_x", "__x", "__doc__"]


@harness("C14", "lookup of a variable", functions=[T + "HostWrapper.__getattr__", T + "HostWrapper.vars_hierarchical", T + "ModuleWrapper.__getattribute__", T + "ModuleWrapper.exported_variables",
                                                  T + "ModuleWrapper.is_exported_variable", T + "ModuleWrapper.wrap"],
         covers=["host", "script", "nowhere"], enum=4000, samples=50, seconds=60,
         assumes=["the values of variables are only passed on (arbitrary objects); names: an ordinary one, private ones, and those of the wrappers' own attributes"])
def lookup(ctx):
    """The host's own variable, else the script's, else none: by attribute and in templates alike."""
    name = ctx.choice("name", ["x", "_x", "sub_module", "name", "url", "wrap"])
    on_host = ctx.choice("on the host", [False, True])
    kind = lambda label: ctx.choice(label, [Value(), None, 0, "", types.ModuleType("imported")])
    hv = kind("value on the host") if on_host else None
    with World_():
        host = fora.types.HostWrapper(iw.InventoryWrapper(), "h", "ssh://h")
        module = types.ModuleType("h") if ctx.choice("module file", [True, False]) else types.SimpleNamespace()
        rt.call(host.wrap, module, copy_members=True, copy_functions=True)
        own = name in ("name", "url", "wrap")
        ctx.assume(not (own and on_host))
        if on_host:
            setattr(module, name, hv)
        on_script = ctx.choice("script", ["none", "without x", "with x"])
        sv = None
        if on_script != "none":
            script = fora.types.ScriptWrapper("s")
            sm = types.ModuleType("s")
            rt.call(script.wrap, sm, copy_members=True, copy_functions=True)
            if on_script == "with x":
                sv = kind("value in the script")
                setattr(sm, name, sv)
            fora.script = script
        o = ctx.outcome(rt.call, getattr, host, name)
        hier = ctx.outcome(rt.callm, host, "vars_hierarchical")
        exported = ctx.outcome(rt.callm, host, "exported_variables")
    ctx.ensure("templates can be given the variables of any host", hier.returned and exported.returned, (hier, exported))
    if own:
        ctx.ensure("the host's own attributes are its own", o.returned and (name == "wrap" or o.value == {"name": "h", "url": "ssh://h"}[name]), o)
        ctx.ensure("the host's own attributes are not variables of the module", name not in exported.value)
        return
    private = name.startswith("_")
    is_module = type(hv) is types.ModuleType
    ctx.ensure("exactly a module's own ordinary variables are passed on", (name in exported.value) == (on_host and not private and not is_module)
               and (name not in exported.value or exported.value[name] is hv), exported)
    if on_host:
        ctx.cover("host")
        if not private:
            ctx.ensure("a variable of the host has the value set last", o.returned and o.value is hv, o)
        seen = hier.value.get(name, UNDEF)
        if not private and not is_module:
            ctx.ensure("templates see the same value as scripts", seen is hv, seen)
        else:
            ctx.ensure("templates see no private variables or modules", seen is UNDEF or on_script == "with x" and not private and seen is sv, seen)
        return
    visible = on_script == "with x" and not private and type(sv) is not types.ModuleType
    ctx.cover("script" if visible else "nowhere")
    ctx.ensure("else the active script's variable, unless private or an imported module", (o.returned and o.value is sv) if visible else o.raised(AttributeError), o)
    ctx.ensure("templates see the same variables as scripts", hier.value.get(name, UNDEF) is (sv if visible else UNDEF), hier)


@harness("C14", "variables that are passed on", functions=[T + "ModuleWrapper.is_exported_variable"], covers=["variable", "not a variable"], enum=0, samples=0, seconds=60, concrete=False)
def exported_name(ctx):
    """For any name and any value."""
    w = fora.types.GroupWrapper("g") if ctx.choice("of", ["group", "host"]) == "group" else fora.types.HostWrapper(None, "h", None)
    attr = ctx.str("name")
    value = ctx.choice("value", [Value(), None, 0, "", (), types.ModuleType("m"), len])
    r = rt.call(w.is_exported_variable, attr, value)
    own = [n for n in list(type(w).__annotations__) + list(type(w).__dict__) if not n.startswith("_")]
    z = z3.Or(z3.PrefixOf(z3.StringVal("_"), sym.lift(attr)), *[sym.lift(attr) == z3.StringVal(n) for n in own], z3.BoolVal(type(value) is types.ModuleType))
    ctx.cover("variable" if r else "not a variable")
    ctx.ensure("every ordinary variable is passed on, whatever its value; private names, imported modules and the wrapper's own attributes are not", sym.SymBool(z3.Not(z) if r else z))


# ---------------------------------------------------------------------------------------------------- load
class HostNames:
    """The declared hosts: an unknown number."""
    sym_graph = True
    __class__ = property(lambda self: dict)

    def __init__(self, s):
        self.s = s

    def sym_comp(self, kind, f, cond=None, key=None):
        s, w = self.s, self.s.w
        if kind != "dict" or cond is not None or s.comp:
            raise Unsupported("hosts to load")
        s.comp = True
        if w.ctx.choose(2):
            return "all loaded"          # no host is refused
        e = sym.SymObj(w.node("host"))
        s.steps.append(("host", e))
        k = key(e)
        v = f(e)
        w.ensure("every host is loaded, once, under its name", z3.BoolVal(k is e and s.instances == [e] and v is s.instance))
        from pyvc.core import PathEnd
        raise PathEnd()

    keys = lambda self: self

    def __iter__(self):
        raise Unsupported("native iteration of the hosts")


ORDER = ["_preprocess_host_declarations", "_preprocess_group_declarations", "_ensure_used_groups_are_declared", "_merge_group_dependencies", "_detect_self_dependencies",
         "_calculate_topological_order"]


@harness("C13", "steps of loading", functions=[I + "load"], covers=["loaded", "refused", "refused host"], enum=0, samples=0, seconds=60, concrete=False,
         assumes=["the contracts of the steps (proved)"])
def load(ctx):
    w = World(ctx)
    s = types.SimpleNamespace(w=w, comp=False, steps=[], instances=[], instance=Value())
    inv = iw.InventoryWrapper()
    inv._host_decls = HostNames(s)
    failed = []

    def step(n):
        def f(fn):
            s.steps.append(n)
            if n != "_merge_group_dependencies" and ctx.choose(2):
                failed.append(n)
                raise ValueError(n)
        return f

    def instanciate(fn, host):
        s.instances.append(host)
        if ctx.choose(2):
            failed.append("host")
            raise ValueError("host")
        return s.instance
    for n in ORDER:
        rt.CONTRACTS[(M, "InventoryWrapper." + n)] = step(n)
    rt.CONTRACTS[(M, "InventoryWrapper.instanciate_host")] = instanciate
    o = ctx.outcome(rt.call, inv.load)
    done = [x for x in s.steps if type(x) is str]
    if failed and failed[0] != "host":
        ctx.cover("refused")
        w.ensure("a refused inventory is not loaded, and no module of it executed", z3.BoolVal(o.raised(ValueError) and not s.instances and not s.comp and not inv._is_initialized))
        return
    need = [("_preprocess_host_declarations", "_preprocess_group_declarations"), ("_preprocess_group_declarations", "_ensure_used_groups_are_declared"),
            ("_ensure_used_groups_are_declared", "_merge_group_dependencies"), ("_merge_group_dependencies", "_detect_self_dependencies"), ("_merge_group_dependencies", "_calculate_topological_order")]
    w.ensure("every inventory is examined in full before a module is executed", z3.BoolVal(sorted(done) == sorted(ORDER) and all(done.index(a) < done.index(b) for a, b in need)))
    if failed:
        ctx.cover("refused host")
        w.ensure("an inventory with a refused host is refused", z3.BoolVal(o.raised(ValueError) and not inv._is_initialized))
        return
    ctx.cover("loaded")
    w.ensure("the inventory has all its hosts and is ready", z3.BoolVal(o.returned and inv.loaded_hosts == "all loaded" and inv._is_initialized is True))


@harness("C13", "loading an inventory", functions=["fora.loader.load_inventory"], covers=["loaded", "refused", "immediate", "without hosts"], enum=0, samples=0, seconds=60, concrete=False,
         assumes=["load_py_module: calls pre_exec with the new module, then executes the file in it (bounded: the real loader)"])
def load_inventory(ctx):
    w = World(ctx)
    what = ["site/inventory.py", "ssh://host"][ctx.choose(2)]
    hosts = [UNDEF, [], ["h"], ("h",)][ctx.choose(4)] if what.endswith(".py") else None
    log = []

    def load_module(f, file, pre_exec=None):
        m = types.ModuleType("inventory")
        m.__path__, m.__file__ = "/site", "/site/inventory.py"
        if pre_exec is not None:
            rt.call(pre_exec, m)
        log.append(("module", file, fora.inventory, m))
        if hosts is not UNDEF:
            m.hosts = hosts
        return m
    fails = bool(ctx.choose(2))

    def load_(f):
        log.append(("load", f.__self__))
        if fails:
            raise ValueError("contradiction")
    rt.CONTRACTS[("fora.utils", "load_py_module")] = load_module
    rt.CONTRACTS[(M, "InventoryWrapper.load")] = load_
    old = fora.inventory
    try:
        o = ctx.outcome(rt.call, fora.loader.load_inventory, what)
        inv = fora.inventory
    finally:
        fora.inventory = old
    ok = lambda label, c: w.ensure(label, z3.BoolVal(bool(c)))
    loads = [x for x in log if x[0] == "load"]
    if what.endswith(".py"):
        ok("the inventory file is executed once, as the inventory", [x[:2] for x in log if x[0] == "module"] == [("module", what)] and log[0][2] is inv and object.__getattribute__(inv, "module") is log[0][3])
        if type(hosts) is not list:
            ctx.cover("without hosts")
            ok("an inventory without a list of hosts is refused", o.raised(FatalError) and not loads)
            return
    else:
        ctx.cover("immediate")
        ok("a single host is an inventory of its own", len(log) == 1 and inv.hosts == [what])
    ok("the inventory is loaded once, after its module", len(loads) == 1 and loads[0][1] is inv and log[-1] is loads[0])
    ctx.cover("refused" if fails else "loaded")
    ok("an invalid inventory is a FatalError, a valid one is accepted", o.raised(FatalError) if fails else o.returned)
