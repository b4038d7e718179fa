"""C12: running a script: what it sees, and what is left afterwards."""
import builtins
import inspect
import itertools
import os
import shutil
import subprocess
import tempfile

from pyvc import rt, sym
from pyvc.harness import harness
from pyvc.sym import force
from specs import oplib as O
from specs.ops_files import scratch
from specs.c10_settings import base_of, compare

import fora
import fora.loader as loader
import fora.operations.local as local

L, LO, T = "fora.loader.", "fora.operations.local.", "fora.types."
FUN = [L + "run_script", LO + "script", T + "ScriptWrapper.Params", "fora.utils.load_py_module", T + "ModuleWrapper.definition_file", T + "ModuleWrapper.wrap"]


def allow_files():
    """Reading local files and changing the directory of this process are executed for real."""
    import glob
    import pathlib
    rt.ALLOW_REAL.update({os.getcwd, os.chdir, os.stat, os.lstat, os.readlink, os.listdir, os.scandir, os.access, os.fspath, glob.glob, glob.iglob, builtins.open})
    rt.ALLOW_REAL.update(getattr(os.path, n) for n in ("realpath", "abspath", "samefile", "exists", "lexists", "isfile", "isdir", "islink", "relpath", "expanduser"))


class Tree:
    """A scratch directory with scripts whose code calls back into the specification."""

    def __init__(self):
        self.dir = os.path.dirname(os.path.realpath(scratch("keep", b"")))
        self.home = os.getcwd()
        os.makedirs(self.dir + "/sub", exist_ok=True)
        for n in ("a.py", "b.py", "sub/c.py"):
            with open(f"{self.dir}/{n}", "w") as f:
                f.write(f"import builtins\nbuiltins._pyvc_body({n!r}, globals())\n")
        if not os.path.islink(self.dir + "/link.py"):
            os.symlink("sub/c.py", self.dir + "/link.py")

    def __enter__(self):
        os.chdir(self.dir)
        allow_files()
        return self

    def __exit__(self, *a):
        os.chdir(self.home)
        if hasattr(builtins, "_pyvc_body"):
            del builtins._pyvc_body


def _frame():
    return inspect.getouterframes(inspect.currentframe())[0]


ERRORS = {"error": lambda: ValueError("x"), "command": lambda: subprocess.CalledProcessError(1, ["x"], None, None), "exit": lambda: SystemExit(3)}


def stop(end):
    e = ERRORS[end]()
    e.marked = True
    raise e


@harness("C12", "restores everything", functions=FUN[:2] + FUN[3:], covers=["ended", "failed", "nested"], enum=6000, samples=300, seconds=100,
         assumes=["a script interacts with fora only through its interface: it may change the directory, open settings blocks, run scripts and end in any way"])
def restores(ctx):
    w = O.World(ctx)
    conn = O.setup(ctx, w)
    if ctx.symbolic:
        ctx.assume(ctx.fn("user_exists", "bool", "alice"))
        O.know_octal(ctx, "644")
    with Tree() as t:
        where = ctx.choice("script", ["a.py", "sub/c.py", "link.py", "absolute", "./sub/../a.py"])
        path = t.dir + "/sub/c.py" if where == "absolute" else where
        real = t.dir + "/sub/c.py" if where in ("absolute", "sub/c.py", "link.py") else t.dir + "/a.py"
        name = ctx.choice("name", [None, "nice"])
        ends = ctx.choice("script ends", ["end", "error", "command", "exit"])
        inner = ctx.choice("inner script", [None, "end", "error"])
        move = ctx.choice("script changes directory", [False, True])
        block = ctx.choice("caller is in a block", [False, True])
        caller = fora.script
        if block:
            cm = rt.callm(caller, "defaults", owner="alice", file_mode="644", cwd="/tmp")
            rt.callm(cm, "__enter__")
        before_defaults = rt.callm(caller, "current_defaults")
        before_stack = list(loader.script_stack)
        seen = []

        def body(n, g):
            seen.append(n)
            ctx.ensure("a script runs in its own directory", os.getcwd() == os.path.dirname(real if len(seen) == 1 else t.dir + "/b.py"), os.getcwd())
            me = fora.script
            ctx.ensure("a script is the current script while it runs", me is not caller and me.module is not None and me.module.__dict__ is g, me)
            if len(seen) == 1:
                ctx.ensure("a script is named after its file by default", me.name == (name or os.path.splitext(os.path.basename(path))[0]), me.name)
            compare(ctx, "a script starts with the settings of the connection", rt.callm(me, "current_defaults"), base_of(ctx, w, conn))
            ctx.ensure("the script stack grows by the running script", len(loader.script_stack) == len(before_stack) + len(seen), len(loader.script_stack))
            if n == "b.py":
                if inner != "end":
                    stop(inner)
                return
            if move:
                os.chdir("/")
            if inner is not None:
                ctx.cover("nested")
                here = os.getcwd()
                cmm = rt.callm(me, "defaults", owner="alice")
                rt.callm(cmm, "__enter__")
                mine = rt.callm(me, "current_defaults").owner
                o = ctx.outcome(rt.call, local.script, t.dir + "/b.py")
                ctx.ensure("the inner script is run", seen == [n, "b.py"], seen)
                ctx.ensure("an error of the inner script reaches its caller", o.returned == (inner == "end") and (o.returned or getattr(o.exc, "marked", False)), o)
                ctx.ensure("the caller is the current script again", fora.script is me)
                ctx.ensure("the caller's directory is back", os.getcwd() == here, os.getcwd())
                ctx.ensure("the caller's settings are back", rt.callm(me, "current_defaults").owner == mine)
                ctx.ensure("the script stack is back", len(loader.script_stack) == len(before_stack) + 1)
                rt.callm(cmm, "__exit__", None, None, None)
                if not o.returned:
                    raise o.exc
            if ends != "end":
                stop(ends)
        builtins._pyvc_body = body
        direct = ctx.choice("run by", ["local.script", "run_script"])
        if direct == "run_script":
            o = ctx.outcome(rt.call, loader.run_script, path, _frame(), name=name)
        else:
            o = ctx.outcome(rt.call, local.script, path, name=name)
        ok = ends == "end" and inner in (None, "end")
        ctx.cover("ended" if ok else "failed")
        ctx.ensure("the script is executed", seen[:1] == [{"a.py": "a.py", "./sub/../a.py": "a.py"}.get(where, "sub/c.py")] and len(seen) == (1 if inner is None else 2), seen)
        ctx.ensure("an error of a script reaches the caller unchanged", o.returned == ok and (ok or getattr(o.exc, "marked", False)), o)
        ctx.ensure("the previous directory is back", os.getcwd() == t.dir, os.getcwd())
        ctx.ensure("the previous script is current again", fora.script is caller)
        ctx.ensure("the script stack is as before", loader.script_stack == before_stack, len(loader.script_stack))
        now = rt.callm(caller, "current_defaults")
        ctx.ensure("the settings of the caller are as before", now is before_defaults or now == before_defaults, now)


@harness("C12", "missing script", functions=FUN[:2], covers=["checked"], enum=100, samples=20)
def missing(ctx):
    w = O.World(ctx)
    O.setup(ctx, w)
    with Tree() as t:
        caller, stack = fora.script, list(loader.script_stack)
        path = ctx.choice("script", ["nowhere.py", "no/where.py", "sub"])
        o = ctx.outcome(rt.call, local.script, path) if ctx.choice("by", [0, 1]) else ctx.outcome(rt.call, loader.run_script, path, _frame())
        ctx.cover("checked")
        ctx.ensure("a script that cannot be loaded is an error", not o.returned, o)
        ctx.ensure("everything is restored after a script that cannot be loaded", os.getcwd() == t.dir and fora.script is caller and loader.script_stack == stack)


@harness("C12", "recursion", functions=FUN[:2] + FUN[4:5], covers=["refused", "allowed"], enum=1500, samples=100)
def recursion(ctx):
    """Chains of script calls, under any spelling of the path."""
    w = O.World(ctx)
    O.setup(ctx, w)
    with Tree() as t:
        spell = {"a.py": ["a.py", t.dir + "/a.py", "sub/../a.py"], "b.py": ["b.py", t.dir + "/./b.py"], "sub/c.py": ["sub/c.py", "link.py", t.dir + "/link.py"]}
        files = list(spell)
        chain = [ctx.choice(f"call {i}", files) for i in range(3)]
        paths = [ctx.choice(f"spelling {i}", spell[f]) for i, f in enumerate(chain)]
        rec = [True] + [ctx.choice(f"recursive {i}", [False, True]) for i in range(1, 3)]
        first = ctx.choice("first call by", ["command line", "script"])
        seen, results = [], []

        def body(n, g):
            seen.append(n)
            i = len(seen)
            if i < 3:
                os.chdir(t.dir)
                results.append((i, ctx.outcome(rt.call, local.script, paths[i], recursive=rec[i])))
        builtins._pyvc_body = body
        if first == "script":
            ctx.outcome(rt.call, local.script, paths[0])
        else:
            ctx.outcome(rt.call, loader.run_script, paths[0], _frame(), name="cmdline")
        active = [chain[0]]
        exp = {}
        for i in (1, 2):
            ok = rec[i] or chain[i] not in active
            exp[i] = ok
            if not ok:
                break
            active.append(chain[i])
        for i, o in results:
            if i not in exp:
                continue
            if exp[i]:
                ctx.cover("allowed")
                ctx.ensure("a script that is not running (or is allowed to recurse) is executed", o.returned and len(seen) > i, (chain, paths, rec, o))
            else:
                ctx.cover("refused")
                ctx.ensure("a recursive call is refused", o.raised(ValueError) and len(seen) == i, (chain, paths, rec, o))
        ctx.ensure("every expected call was made", set(exp) <= {i for i, _ in results}, (exp, results))


@harness("C12", "parameters", functions=FUN[:3], covers=["given", "missing"], enum=4000, samples=300)
def parameters(ctx):
    w = O.World(ctx)
    O.setup(ctx, w)
    with Tree() as t:
        given = {}
        for k in ("req", "opt", "none"):
            if ctx.choice(f"{k} given", [False, True]):
                given[k] = ctx.choice(f"{k} is None", [False, True])
                given[k] = None if given[k] else ctx.str(k, dom=["v", ""])
        passed = dict(given)
        how = "dict"
        if not given:
            how = ctx.choice("no parameters as", ["dict", "None"])
        got, err = {}, []

        def body(n, g):
            ns = {}
            src = "@Params\nclass params:\n    req: str\n    opt: str = 'd'\n    none: str = None\n    plain = 5\n"
            use = ctx.choice("decorator", ["Params", "fora.script.Params"])
            if use == "fora.script.Params":
                src = "import fora\n" + src.replace("@Params", "@fora.script.Params")
            try:
                exec(compile(src, "<script>", "exec"), g)
            except RuntimeError as e:
                err.append(e)
                return
            got.update({k: getattr(g["params"], k) for k in ("req", "opt", "none", "plain")})
        builtins._pyvc_body = body
        o = ctx.outcome(rt.call, local.script, "a.py", **({} if how == "None" else {"params": passed}))
        ctx.ensure("the script runs", o.returned, o)
        if "req" not in given:
            ctx.cover("missing")
            ctx.ensure("a required parameter that is missing is an error", len(err) == 1 and not got, got)
            return
        ctx.cover("given")
        ctx.ensure("all parameters are available", not err and bool(got), err)
        for k, d in (("req", None), ("opt", "d"), ("none", None)):
            if k in got:
                e = given[k] if k in given else d
                ctx.ensure(f"parameter {k} is the given value, else its default", got[k] is e or got[k] == e, (k, got.get(k), e))
        ctx.ensure("other attributes are left alone", got.get("plain") == 5)
        ctx.ensure("the caller's parameters are not modified", passed == given or passed.keys() == given.keys())
