"""C04: uploads, downloads, status and database queries report/produce exactly what the remote has."""
import stat as stat_mod

from pyvc import rt, sym
from pyvc.core import PathEnd
from pyvc.harness import harness
from pyvc.loops import SymSeq
from pyvc.sym import force
from specs import serverlib as S
from specs import wirelib as W
from specs.wirelib import td

C = "fora.connectors.tunnel_connector.TunnelConnector."
D = "fora.connectors.tunnel_dispatcher."


@harness("C04", "upload", functions=[C + "upload", D + "PacketUpload.handle", D + "_resolve_user", D + "_resolve_group", D + "_resolve_oct"],
         covers=["uploaded", "refused"], enum=600, samples=1200)
def upload(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    path, content = ctx.str("file", dom=["/srv/x", "-d"]), ctx.bytes("content", dom=[b"", b"\x00\xff", b"data\r\n"])
    mode = ctx.opt("mode", lambda: ctx.str("mode", dom=S.OCTS))
    owner = ctx.opt("owner", lambda: ctx.str("owner", dom=S.NAMES))
    group = ctx.opt("group", lambda: ctx.str("group", dom=S.GNAMES))
    o = ctx.outcome(rt.call, conn.upload, path, content, mode=mode, owner=owner, group=group)
    mode, owner, group = force(mode), force(owner), force(group)
    valid, uid, gid, m = True, None, None, None
    if mode is not None:
        m = srv.spec_oct(mode)
        valid = m is not None
    if owner is not None:
        r = srv.spec_user(owner)
        valid = valid and r is not None
        uid, gid = r or (None, None)
    if group is not None:
        r = srv.spec_group(group)
        valid = valid and r is not None
        gid = r[0] if r else None
    if not valid:
        ctx.cover("refused")
        ctx.ensure("an upload with an invalid mode, owner or group is an error", not o.returned, o)
        ctx.ensure("a refused upload touches nothing", not srv.effects, srv.effects)
        return
    if not o.returned:
        return
    ctx.cover("uploaded")
    f = srv.file
    ctx.ensure("the file is written", f is not None)
    if f is None:
        return
    ctx.ensure("the requested path is written", f.path == path, f.path)
    ctx.ensure("the file has exactly the uploaded content", W.eq(f.content, content) if not (ctx.symbolic and f.content == b"") else content == b"", (f.content, content))
    if m is not None:
        ctx.ensure("the file has the requested mode", f.mode is not None and f.mode[0] == "set" and sym.conj(f.mode[1] == m), (f.mode, m))
        ctx.ensure("set-id bits of the requested mode are not lost again", not f.suid_cleared, f)
    elif f.new:
        ctx.ensure("without a mode a new file is private to its owner", f.mode == ("umask", 0o077), f.mode)
    if owner is not None:
        ctx.ensure("the file has the requested owner", f.owner == uid, (f.owner, uid))
    if group is not None or owner is not None:
        ctx.ensure("the file has the requested group, or the primary group of the owner", f.group == gid, (f.group, gid))
    if owner is None and group is not None:
        ctx.ensure("the owner defaults to root", f.owner == 0, f.owner)


@harness("C04", "download", functions=[C + "download", D + "PacketDownload.handle"], covers=["downloaded", "missing"], enum=300, samples=300)
def download(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    path = ctx.str("file", dom=["/srv/x", "-d"])
    state = ctx.choice("state", ["present", "missing", "error"])
    srv.faults = False
    err = S.oserror(ctx, "open") if state != "present" else None
    if state == "missing":
        err = FileNotFoundError(2, "No such file or directory")
    elif state == "error":
        ctx.assume(err.errno != 2)
    real = srv.os_open_builtin

    def open_(p, mode="r", *a, **k):
        if err is not None:
            raise err
        return real(p, mode, *a, **k)
    import builtins
    rt.EXTERNALS[builtins.open] = open_
    o = ctx.outcome(rt.call, conn.download, path)
    if state == "present":
        ctx.cover("downloaded")
        ctx.ensure("a download returns exactly the content of the file", o.returned and W.eq(o.value, srv.fs_content(path)), o)
    elif state == "missing":
        ctx.cover("missing")
        ctx.ensure("a missing file is a value error", o.raised(ValueError), o)
    else:
        ctx.ensure("any other failure is a remote OS error", o.raised(td.RemoteOSError), o)
        if o.raised(td.RemoteOSError):
            ctx.ensure("the remote error number is reported", W.eq(o.exc.errno, err.errno), o)


FT = {stat_mod.S_IFREG: "file", stat_mod.S_IFDIR: "dir", stat_mod.S_IFCHR: "chr", stat_mod.S_IFBLK: "blk", stat_mod.S_IFIFO: "fifo",
      stat_mod.S_IFLNK: "link", stat_mod.S_IFSOCK: "sock", 0: "other"}


@harness("C04", "stat", functions=[C + "stat", D + "PacketStat.handle"], covers=["present", "missing"], enum=700, samples=500)
def stat(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    srv.faults = False
    path = ctx.str("path", dom=["/srv/x", "-d"])
    follow, sha = ctx.bool("follow"), ctx.bool("sha")
    state = ctx.choice("state", ["present", "missing", "error"])
    err = None
    if state == "missing":
        err = FileNotFoundError(2, "No such file or directory")
    elif state == "error":
        err = S.oserror(ctx, "stat")
        ctx.assume(err.errno != 2)
    real = srv.os_stat
    srv.badtext = lambda *a: None

    def stat_(p, *a, **k):
        ctx.ensure("the requested path is examined", p == path, p)
        if err is not None:
            raise err
        return real(p, *a, **k)
    import os
    rt.EXTERNALS[os.stat] = stat_
    rt.EXTERNALS[os.lstat] = lambda p: stat_(p, follow_symlinks=False)
    o = ctx.outcome(rt.call, conn.stat, path, follow_links=follow, sha512sum=sha)
    if state == "error":
        ctx.ensure("a failing stat is a remote OS error, never 'not there'", o.raised(td.RemoteOSError), o)
        if o.raised(td.RemoteOSError):
            ctx.ensure("the remote error number is reported", W.eq(o.exc.errno, err.errno), o)
        return
    ctx.ensure("stat reports a result", o.returned, o)
    if not o.returned:
        return
    if state == "missing":
        ctx.cover("missing")
        ctx.ensure("a missing path is reported as absent", o.value is None, o)
        return
    ctx.cover("present")
    r, st = o.value, srv.st
    ctx.ensure("an existing path is reported as present", r is not None, o)
    if r is None:
        return
    ctx.ensure("links are followed exactly when requested", follow == srv.stat_followed, srv.stat_followed)
    ft = FT[st.fmt]
    ctx.ensure("the file type is reported", r.type == ft, (r.type, ft))
    ctx.ensure("the permission bits are reported", W.eq(r.mode, sym.SymStr((sym.oct_digits(st.perm),)) if ctx.symbolic else oct(st.perm)[2:]), (r.mode, st.perm))
    ctx.ensure("the size is reported", W.eq(r.size, st.st_size), r.size)
    ctx.ensure("the modification time is reported", W.eq(r.mtime, st.st_mtime_ns), r.mtime)
    ctx.ensure("the change time is reported", W.eq(r.ctime, st.st_ctime_ns), r.ctime)
    u = ctx.fn("pwu_exists", "bool", st.st_uid)
    g = ctx.fn("grg_exists", "bool", st.st_gid)
    if bool(u):
        ctx.ensure("the owner is reported by name", W.eq(r.owner, ctx.fn("pwu_name", "str", st.st_uid)), r.owner)
    else:
        ctx.ensure("an unknown owner is reported by number", W.eq(r.owner, rt._str(st.st_uid) if ctx.symbolic else str(st.st_uid)), r.owner)
    if bool(g):
        ctx.ensure("the group is reported by name", W.eq(r.group, ctx.fn("grg_name", "str", st.st_gid)), r.group)
    else:
        ctx.ensure("an unknown group is reported by number", W.eq(r.group, rt._str(st.st_gid) if ctx.symbolic else str(st.st_gid)), r.group)
    if bool(sha) and ft == "file":
        ctx.ensure("the checksum is that of the content", W.eq(r.sha512sum, ctx.fn("sha512", "bytes", srv.fs_content(path))), r.sha512sum)
    else:
        ctx.ensure("no checksum unless requested for a regular file", r.sha512sum is None, r.sha512sum)


def _resolve(kind):
    def run(ctx):
        srv, link, conn = S.setup(ctx)
        rt.call(conn.open)
        srv.faults = False
        who = ctx.opt("who", lambda: ctx.str("who", dom=S.NAMES))
        o = ctx.outcome(rt.call, getattr(conn, "resolve_" + kind), who)
        w = force(who)
        if w is None:
            w = rt._str(srv.uid if kind == "user" else srv.gid) if ctx.symbolic else str(srv.uid if kind == "user" else srv.gid)
        r = srv.spec_user_name(w) if kind == "user" else srv.spec_group_name(w)
        if r is None:
            ctx.cover("unknown")
            ctx.ensure("an unknown name is a value error", o.raised(ValueError) or (srv.bad and o.raised(td.RemoteOSError)), o)
        else:
            ctx.cover("known")
            ctx.ensure("a name or id resolves to the canonical name", o.returned and W.eq(o.value, r[0]), o)
    return run


for _k in ("user", "group"):
    harness("C04", f"resolve_{_k}", functions=[C + "resolve_" + _k, D + f"PacketResolve{_k.capitalize()}.handle"], covers=["known", "unknown"], enum=400, samples=300)(_resolve(_k))


@harness("C04", "query_user", functions=[C + "query_user", D + "PacketQueryUser.handle"], covers=["known", "unknown", "incomplete"], enum=500, samples=600)
def query_user(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    srv.faults = False
    user, wanthash = ctx.str("user", dom=["alice", "bob", "1000", "x!"]), ctx.bool("hash")
    o = ctx.outcome(rt.call, conn.query_user, user, query_password_hash=wanthash)
    pw = srv._spec(user, srv.pwnam, srv.pwuid, lambda r: (r,))
    if pw is None:
        ctx.cover("unknown")
        ctx.ensure("an unknown user is a value error", o.raised(ValueError) or (srv.bad and o.raised(td.RemoteOSError)), o)
        return
    pw = pw[0]
    if bool(wanthash) and not bool(ctx.fn("sp_exists", "bool", pw.pw_name)):
        ctx.cover("incomplete")
        ctx.ensure("a user without an accessible hash is an error when the hash was requested, not a missing user", o.raised(td.RemoteOSError), o)
        return
    if not bool(ctx.fn("grg_exists", "bool", pw.pw_gid)):
        ctx.cover("incomplete")
        ctx.ensure("a user without a primary group is an error, not a missing user", o.raised(td.RemoteOSError), o)
        return
    ctx.cover("known")
    ctx.ensure("a known user is returned", o.returned, o)
    if not o.returned:
        return
    v = o.value
    for f, x in (("name", pw.pw_name), ("uid", pw.pw_uid), ("gid", pw.pw_gid), ("gecos", pw.pw_gecos), ("home", pw.pw_dir), ("shell", pw.pw_shell),
                 ("group", ctx.fn("grg_name", "str", pw.pw_gid))):
        ctx.ensure(f"user entry: {f}", W.eq(getattr(v, f), x), (getattr(v, f), x))
    if bool(wanthash):
        ctx.ensure("user entry: password hash", W.eq(v.password_hash, ctx.fn("sp_hash", "str", pw.pw_name)), v.password_hash)
    else:
        ctx.ensure("no password hash unless requested", v.password_hash is None, v.password_hash)
    if ctx.symbolic:
        gs = force(v.groups)
        if not hasattr(gs, "origin"):
            raise S.Unsupported("supplementary groups computed in another form")
        _, k, e, c, val = gs.origin
        ctx.ensure("a group is listed exactly when the user is a member", c == ctx.fn("is_member", "bool", e.index, pw.pw_name), c)
        ctx.ensure("groups are listed by name", W.eq(val, e.gr_name), val)
    else:
        ctx.ensure("a group is listed exactly when the user is a member", v.groups == [g.gr_name for g in srv.grall if pw.pw_name in g.gr_mem], v.groups)


@harness("C04", "query_group", functions=[C + "query_group", D + "PacketQueryGroup.handle"], covers=["known", "unknown"], enum=300, samples=300)
def query_group(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    srv.faults = False
    group = ctx.str("group", dom=["wheel", "100", "x!"])
    o = ctx.outcome(rt.call, conn.query_group, group)
    gr = srv._spec(group, srv.grnam, srv.grgid, lambda r: (r,))
    if gr is None:
        ctx.cover("unknown")
        ctx.ensure("an unknown group is a value error", o.raised(ValueError) or (srv.bad and o.raised(td.RemoteOSError)), o)
        return
    gr = gr[0]
    ctx.cover("known")
    ctx.ensure("a known group is returned", o.returned, o)
    if not o.returned:
        return
    ctx.ensure("group entry: name", W.eq(o.value.name, gr.gr_name), o.value.name)
    ctx.ensure("group entry: gid", W.eq(o.value.gid, gr.gr_gid), o.value.gid)
    m = force(o.value.members)
    ctx.ensure("group entry: members", (isinstance(m, SymSeq) or type(m) is SymSeq) and m.name == gr.gr_mem.name if ctx.symbolic else m == gr.gr_mem, m)


@harness("C04", "getenv", functions=[C + "getenv", D + "PacketGetenv.handle"], covers=["set", "unset"], enum=60, samples=60)
def getenv(ctx):
    srv, link, conn = S.setup(ctx)
    rt.call(conn.open)
    srv.faults = False
    key = ctx.str("key", dom=["HOME", "X"])
    o = ctx.outcome(rt.call, conn.getenv, key)
    ctx.ensure("the query is answered", o.returned, o)
    if bool(ctx.fn("env_set", "bool", key)):
        ctx.cover("set")
        ctx.ensure("a set variable is returned unchanged", o.returned and W.eq(o.value, ctx.fn("env_value", "str", key)), o)
    else:
        ctx.cover("unset")
        ctx.ensure("an unset variable is absent", o.returned and o.value is None, o)
