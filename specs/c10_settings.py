"""C10: remote settings apply exactly inside their block."""
import copy
import types

from pyvc import rt, sym
from pyvc.core import Unsupported
from pyvc.harness import harness
from pyvc.sym import force
from specs import oplib as O

import fora
import fora.connection as fconn
import fora.types as ftypes
from fora.remote_settings import RemoteSettings

T, C, R = "fora.types.", "fora.connection.", "fora.remote_settings."
FUN = [T + "ScriptWrapper.defaults", T + "ScriptWrapper.current_defaults", T + "RemoteDefaultsContext.__enter__", T + "RemoteDefaultsContext.__exit__",
       C + "Connection.resolve_defaults", C + "Connection.run", C + "Connection._resolve_identity", R + "RemoteSettings.overlay"]
USERS, GROUPS, OCTS, DIRS = ("as_user", "owner"), ("as_group", "group"), ("file_mode", "dir_mode", "umask"), ("cwd",)
ALL = USERS + GROUPS + OCTS + DIRS


def text(ctx, field, n):
    if field in USERS:
        return ctx.str(n, dom=O.OWNERS)
    if field in GROUPS:
        return ctx.str(n, dom=O.GROUPS)
    if field in OCTS:
        return ctx.str(n, dom=O.FILEMODES)
    return ctx.str(n, dom=["/srv", "/tmp", "", "/nowhere", "rel"])


def meaning(ctx, w, conn, field, v):
    """The effective setting a requested value denotes; None: it denotes none, "?": left open."""
    f, w.faults = w.faults, False
    try:
        if field in USERS:
            return conn.connector.resolve_user(v)
        if field in GROUPS:
            return conn.connector.resolve_group(v)
        if field in OCTS:
            return O.octal(ctx, v)
        t = w.at(v).type
        return v if t == "dir" else "?" if t == "link" else None
    except ValueError:
        return None
    finally:
        w.faults = f


def same(ctx, field, actual, expected):
    if actual is None or expected is None:
        return actual is expected
    if field in OCTS:
        v = O.octal(ctx, actual)
        return v is not None and v == expected
    return actual == expected


def base_of(ctx, w, conn):
    b = conn.base_settings
    return {"as_user": w.me[0], "owner": w.me[0], "as_group": w.me[1], "group": w.me[1],
            "file_mode": 0o600, "dir_mode": 0o700, "umask": 0o077, "cwd": "/tmp"}


def enter(ctx, **kw):
    cm = rt.callm(fora.script, "defaults", **kw)
    return cm, rt.callm(cm, "__enter__")


def compare(ctx, label, st, exp, only=ALL):
    for f in only:
        ctx.ensure(f"{label}: {f}", same(ctx, f, getattr(st, f), exp[f]), (getattr(st, f), exp[f]))


def leave(ctx, cm, failing):
    if failing:
        e = RuntimeError("inside the block")
        return rt.callm(cm, "__exit__", RuntimeError, e, None)
    return rt.callm(cm, "__exit__", None, None, None)


def blocks(fields):
    def body(ctx):
        w = O.World(ctx)
        conn = O.setup(ctx, w)
        exp = base_of(ctx, w, conn)
        outer = None
        if ctx.choice("enclosing block", [False, True]):
            req = {}
            for f in fields:
                v = text(ctx, f, "outer." + f)
                m = meaning(ctx, w, conn, f, v)
                ctx.assume(m is not None and not (isinstance(m, str) and not isinstance(m, sym.Sym) and m == "?"))
                req[f], exp[f] = v, m
            outer, _ = enter(ctx, **req)
        req, inner, ok = {}, dict(exp), True
        for f in fields:
            v = ctx.opt("inner." + f, lambda f=f: text(ctx, f, "inner." + f))
            v = force(v)
            req[f] = v
            if v is not None:
                inner[f] = meaning(ctx, w, conn, f, v)
                if inner[f] is None:
                    ok = False
                elif isinstance(inner[f], str) and not isinstance(inner[f], sym.Sym) and inner[f] == "?":
                    ok = None if ok else ok
                    inner[f] = v
        if ctx.choice("arguments that are not requested are", ["left out", "None"]) == "left out":
            req = {k: v for k, v in req.items() if v is not None}
        o = ctx.outcome(enter, ctx, **req)
        st = lambda: rt.callm(fora.script, "current_defaults")
        if not o.returned:
            ctx.cover("refused")
            ctx.ensure("valid settings are accepted", ok is not True, (o, req))
            if outer is not None:
                compare(ctx, "a refused block leaves the settings", st(), exp)
        else:
            ctx.cover("entered")
            ctx.ensure("invalid settings are refused", ok is not False, req)
            cm, got = o.value
            compare(ctx, "inside the block", st(), inner)
            compare(ctx, "value of the block", got, inner)
            before = len(w.runs)
            w.extra["probe"] = lambda cmd: (0, b"")
            arg = {k: ctx.choice("run " + k, [None, v]) for k, v in [("user", "alice"), ("group", "users"), ("umask", "22"), ("cwd", "/var")]} \
                if not ctx.symbolic or len(fields) == 2 else dict(user=None, group=None, umask=None, cwd=None)
            rt.callm(conn, "run", ["probe"], **arg)
            r = w.runs[before]
            ctx.ensure("commands run as the user of the block", same(ctx, "as_user", r.user, arg["user"] or inner["as_user"]), (r, inner))
            ctx.ensure("commands run as the group of the block", same(ctx, "as_group", r.group, arg["group"] or inner["as_group"]), (r, inner))
            ctx.ensure("commands run with the umask of the block", same(ctx, "umask", r.umask, 0o22 if arg["umask"] else inner["umask"]), (r, inner))
            ctx.ensure("commands run in the directory of the block", same(ctx, "cwd", r.cwd, arg["cwd"] or inner["cwd"]), (r, inner))
            ret = leave(ctx, cm, ctx.choice("block left by", ["end", "exception"]) == "exception")
            ctx.ensure("an exception leaves the block", not ret, ret)
            if outer is not None:
                ctx.cover("restored")
                compare(ctx, "after the block", st(), exp)
        if outer is not None:
            leave(ctx, outer, False)
            o2 = ctx.outcome(enter, ctx)
            ctx.ensure("the base settings are back after all blocks", o2.returned, o2)
            if o2.returned:
                compare(ctx, "after all blocks", o2.value[1], base_of(ctx, w, conn))
    return body


for _n, _f in [("users", ("as_user", "owner")), ("groups", ("as_group", "group")), ("execution", ("as_user", "as_group")),
               ("modes", ("file_mode", "dir_mode")), ("umask and directory", ("umask", "cwd")), ("ownership", ("owner", "group", "file_mode"))]:
    harness("C10", f"blocks: {_n}", functions=FUN, covers=["entered", "refused", "restored"], enum=300, samples=800, seconds=120)(blocks(_f))
harness("C10", "blocks: all settings", functions=FUN, covers=["entered", "refused", "restored"], enum=300, samples=6000, seconds=100, prove=False)(blocks(ALL))


@harness("C10", "connections do not share settings", functions=FUN[4:], covers=["checked"], enum=200, samples=200)
def shared(ctx):
    """Two hosts of one inventory whose base settings are one shared object."""
    shared_obj = RemoteSettings(as_user="root", as_group="root", owner="root", group="root", file_mode="640", dir_mode="750", umask="027", cwd="/srv")
    keep = copy.copy(shared_obj)
    w = O.World(ctx)
    conn = O.setup(ctx, w, settings=shared_obj)
    O.know_octal(ctx, "640", "750", "027")
    w2 = O.World(ctx)
    w2.me = ("other", "othergrp")
    h2 = ftypes.HostWrapper(fora.inventory, "h2", "ghost:h2", connector=lambda url, h: O.Ghost(url, h, w2))
    c2 = fconn.Connection(h2)
    rt.callm(c2, "__enter__")
    ctx.cover("checked")
    for f in ALL:
        ctx.ensure("the inventory's settings are not modified", getattr(shared_obj, f) == getattr(keep, f), f)
    for c, me in ((conn, w.me), (c2, ("other", "othergrp"))):
        b = c.base_settings
        for f in ALL:
            e = me[0] if f in USERS else me[1] if f in GROUPS else getattr(keep, f)
            ctx.ensure(f"every connection has its own base settings: {f}", getattr(b, f) == e, (getattr(b, f), e))
    ctx.ensure("the connection is available on its host", fora.host.connection is conn and h2.connection is c2)


@harness("C10", "explicit arguments win", functions=[C + "Connection.run"], covers=["checked"], enum=400, samples=600)
def explicit(ctx):
    w = O.World(ctx)
    conn = O.setup(ctx, w)
    cm, st = enter(ctx)
    w.extra["probe"] = lambda cmd: (0, b"")
    a = dict(user=ctx.opt("user", lambda: ctx.str("user")), group=ctx.opt("group", lambda: ctx.str("group")),
             umask=ctx.opt("umask", lambda: ctx.str("umask")), cwd=ctx.opt("cwd", lambda: ctx.str("cwd")),
             input=ctx.opt("input", lambda: ctx.bytes("input")), capture_output=ctx.bool("capture"), check=ctx.bool("check"))
    o = ctx.outcome(rt.callm, conn, "run", ["probe", "x"], **a)
    ctx.cover("checked")
    ctx.ensure("the command is run once", len(w.runs) == 1 and o.returned, o)
    r = w.runs[0]
    base = base_of(ctx, w, conn)
    ctx.ensure("the command line is passed on", r.command == ["probe", "x"], r)
    ctx.ensure("the input is passed on", force(r.input) is force(a["input"]) or r.input == a["input"], r)
    ctx.ensure("check is passed on", r.check == a["check"], r)
    for k, f in (("user", "as_user"), ("group", "as_group"), ("umask", "umask"), ("cwd", "cwd")):
        v, got = force(a[k]), force(getattr(r, k))
        if v is None:
            ctx.ensure(f"the default {k} is used", same(ctx, f, got, base[f]), r)
        else:
            ctx.ensure(f"the given {k} is used", got is not None and got == v, r)
