"""C03: a remote command runs with exactly the requested identity, umask and directory,
or not at all; and its result reaches the caller unchanged."""
import subprocess

from pyvc import rt, sym
from pyvc.core import PathEnd
from pyvc.harness import harness
from pyvc.sym import force
from specs import serverlib as S
from specs import wirelib as W
from specs.c02_requests import _commands
from specs.wirelib import td

FUN = ["fora.connectors.tunnel_connector.TunnelConnector.run", "fora.connectors.tunnel_dispatcher.PacketProcessRun.handle",
       "fora.connectors.tunnel_dispatcher._resolve_user", "fora.connectors.tunnel_dispatcher._resolve_group",
       "fora.connectors.tunnel_dispatcher._resolve_oct", "fora.connectors.tunnel_dispatcher._main"]


def _inputs(ctx):
    return dict(
        command=_commands(ctx),
        input=ctx.opt("input", lambda: ctx.bytes("input")),
        capture_output=ctx.bool("capture"),
        check=ctx.bool("check"),
        user=ctx.opt("user", lambda: ctx.str("user", dom=S.NAMES)),
        group=ctx.opt("group", lambda: ctx.str("group", dom=S.GNAMES)),
        umask=ctx.opt("umask", lambda: ctx.str("umask", dom=S.OCTS)),
        cwd=ctx.opt("cwd", lambda: ctx.str("cwd", dom=S.PATHS)))


@harness("C03", "identity", functions=FUN, covers=["executed", "refused", "as another user"], enum=600, samples=1500, seconds=200)
def identity(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    a = _inputs(ctx)
    um0 = srv.umask
    o = ctx.outcome(rt.call, conn.run, **a)
    user, group, umask, cwd = force(a["user"]), force(a["group"]), force(a["umask"]), force(a["cwd"])
    # what the request denotes
    valid, uid, gid, um = True, srv.uid, srv.gid, 0o077
    if user is not None:
        r = srv.spec_user(user)
        valid = valid and r is not None
        uid, gid = r or (None, None)
    if group is not None:
        r = srv.spec_group(group)
        valid = valid and r is not None
        gid = r[0] if r else None
    if umask is not None:
        um = srv.spec_oct(umask)
        valid = valid and um is not None
    ctx.ensure("at most one program is started", len(srv.execs) <= 1, srv.execs)
    if not valid:
        ctx.cover("refused")
        ctx.ensure("an invalid user, group or umask starts nothing", not srv.execs, (user, group, umask))
        ctx.ensure("an invalid parameter is an error for the caller", not o.returned, o)
        return
    n = a["command"].sym_len() if hasattr(a["command"], "sym_len") else len(a["command"])
    if not srv.failed and not srv.execs and bool(srv.privileged) and bool(n > 0) and (cwd is None or bool(srv.os_path_isdir(cwd))):
        ctx.ensure("a valid request is executed", False, o)
    for e in srv.execs:
        ctx.cover("executed")
        c = e.child
        if user is not None and not bool(uid == srv.uid):
            ctx.cover("as another user")
            name, g = srv.spec_user_name(user)[0], c.groups
            ctx.ensure("the program has no groups of the dispatcher", g[0] != "inherited", g)
            if g[0] == "user":
                ctx.ensure("the program has the groups of its user", sym.conj(sym.disj(W.eq(g[1], name), W.eq(g[1], srv.pwuid(uid).pw_name)), g[2] == gid), (g, name))
            elif g[0] == "list":
                ctx.ensure("the program has no other groups", all(bool(x == gid) for x in g[1]), g)
        ctx.ensure("the command line is the requested one", W.eq(e.command, a["command"]), e.command)
        ctx.ensure("the standard input is the requested one", W.eq(e.stdin, a["input"]), e.stdin)
        ctx.ensure("the program runs as the requested user", c.uid == uid, (c.uid, uid))
        ctx.ensure("the program runs with the requested group", c.gid == gid, (c.gid, gid))
        ctx.ensure("the program runs with the requested umask", c.umask == um, (c.umask, um))
        ctx.ensure("the program runs in the requested directory", c.cwd == (cwd if cwd is not None else srv.cwd), (c.cwd, cwd))
    ctx.ensure("the dispatcher itself keeps its identity", srv.cwd == "/" and srv.umask == 0o077, (srv.cwd, srv.umask))
    if not srv.execs:
        ctx.ensure("a program that could not be started is an error for the caller", not o.returned, o)
    S.in_sync(ctx, link, conn)


@harness("C03", "result", functions=FUN, covers=["returned", "failed"], enum=300, samples=500)
def result(ctx):
    srv, link, conn = S.setup(ctx, faults=False)
    rt.call(conn.open)
    a = _inputs(ctx)
    for k in ("user", "group", "umask", "cwd"):
        a[k] = None
    n = a["command"].sym_len() if hasattr(a["command"], "sym_len") else len(a["command"])
    ctx.assume(n > 0)
    o = ctx.outcome(rt.call, conn.run, **a)
    ctx.ensure("the program is started once", len(srv.execs) == 1, o)
    if len(srv.execs) != 1:
        return
    r = srv.last
    cap = bool(a["capture_output"])
    ctx.ensure("output is captured exactly when requested", srv.execs[0].captured == cap)
    failed = sym.conj(a["check"], r.returncode != 0)
    if bool(failed):
        ctx.cover("failed")
        ok = o.raised(subprocess.CalledProcessError)
        ctx.ensure("a failing checked command raises", ok, o)
        if ok:
            ctx.ensure("the error carries the exit status", W.eq(o.exc.returncode, r.returncode), o)
            ctx.ensure("the error carries the output", sym.conj(W.eq(o.exc.stdout, r.stdout), W.eq(o.exc.stderr, r.stderr)), o)
            ctx.ensure("the error names the command", W.eq(o.exc.cmd, a["command"]), o)
    else:
        ctx.cover("returned")
        ctx.ensure("the result is returned", o.returned, o)
        if o.returned:
            ctx.ensure("exit status unchanged", W.eq(o.value.returncode, r.returncode), o)
            ctx.ensure("standard output unchanged", W.eq(o.value.stdout, r.stdout), o)
            ctx.ensure("standard error unchanged", W.eq(o.value.stderr, r.stderr), o)
