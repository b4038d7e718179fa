"""C02: every request is answered exactly once, whatever happens on the remote."""
import subprocess

from pyvc import rt
from pyvc.core import PathEnd
from pyvc.harness import harness
from specs import serverlib as S
from specs import wirelib as W
from specs.wirelib import td

FUN = ["fora.connectors.tunnel_dispatcher._main", "fora.connectors.tunnel_dispatcher.Packet*.handle", "fora.connectors.tunnel_connector.TunnelConnector.open",
       "fora.connectors.tunnel_connector.TunnelConnector._request", "fora.connectors.tunnel_connector.TunnelConnector.*"]

STR = ["alice", "", "a\0b"]


def _commands(ctx):
    if ctx.symbolic:
        from pyvc.loops import SymSeq
        n = ctx.int("command.len", lo=0, hi=2**31)
        return SymSeq("command", n, lambda k: ctx.str("command[k]"), contract=W.SeqWrite("command"))
    return ctx.choice("command", [["true"], [], ["a", "b c"]])


REQ = {
    "run": lambda c, ctx: c.run(_commands(ctx), input=ctx.opt("input", lambda: ctx.bytes("input")), capture_output=ctx.bool("capture"), check=ctx.bool("check"),
                                user=ctx.opt("user", lambda: ctx.str("user", dom=S.NAMES)), group=ctx.opt("group", lambda: ctx.str("group", dom=S.GNAMES)),
                                umask=ctx.opt("umask", lambda: ctx.str("umask", dom=S.OCTS)), cwd=ctx.opt("cwd", lambda: ctx.str("cwd", dom=S.PATHS))),
    "stat": lambda c, ctx: c.stat(ctx.str("path", dom=S.PATHS + ["a\0b"]), follow_links=ctx.bool("follow"), sha512sum=ctx.bool("sha")),
    "resolve_user": lambda c, ctx: c.resolve_user(ctx.opt("user", lambda: ctx.str("user", dom=S.NAMES + ["a\0b"]))),
    "resolve_group": lambda c, ctx: c.resolve_group(ctx.opt("group", lambda: ctx.str("group", dom=S.GNAMES + ["a\0b"]))),
    "query_user": lambda c, ctx: c.query_user(ctx.str("user", dom=S.NAMES + ["a\0b"]), query_password_hash=ctx.bool("hash")),
    "query_group": lambda c, ctx: c.query_group(ctx.str("group", dom=S.GNAMES + ["a\0b"])),
    "getenv": lambda c, ctx: c.getenv(ctx.str("key")),
    "upload": lambda c, ctx: c.upload(ctx.str("file", dom=S.PATHS + ["a\0b"]), ctx.bytes("content"), mode=ctx.opt("mode", lambda: ctx.str("mode", dom=S.OCTS)),
                                      owner=ctx.opt("owner", lambda: ctx.str("owner", dom=S.NAMES)), group=ctx.opt("group", lambda: ctx.str("group", dom=S.GNAMES))),
    "download": lambda c, ctx: c.download(ctx.str("file", dom=S.PATHS + ["a\0b"])),
}


def _mk(kind):
    def run(ctx):
        srv, link, conn = S.setup(ctx)
        rt.call(conn.open)
        n0 = len(link.responses)
        o = ctx.outcome(REQ[kind], conn, ctx)
        ctx.cover("answered")
        ok = o.returned or o.raised(ValueError, td.RemoteOSError) or (kind == "run" and o.raised(subprocess.CalledProcessError))
        ctx.ensure("the caller gets a result, a value error or a remote error", ok, (o, link.died))
        if ctx.symbolic:
            ctx.ensure("exactly one response per request", len(link.responses) == n0 + 1 and len(link.requests) == len(link.responses), link.responses)
        S.in_sync(ctx, link, conn)
    return run


for _k in REQ:
    harness("C02", f"answered[{_k}]", functions=FUN, covers=["answered"], enum=400, samples=600)(_mk(_k))
