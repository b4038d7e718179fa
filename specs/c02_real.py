"""Bounded: the contracts of C02-C04 on the real dispatcher process and the real operating system.

The assumed contracts of the operating system (serverlib) are only as good as our reading of it. Here the connector talks to the dispatcher that is
actually started as a process, running as an unprivileged user with files of its own in a scratch directory; nothing is modelled."""
import grp
import hashlib
import io
import os
import pwd
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import threading
import types

from pyvc import core, rt
from pyvc.core import Unsupported
from pyvc.harness import harness
from specs import serverlib as S
from specs import wirelib as W
from specs.wirelib import td

import fora
import fora.connectors.tunnel_connector as tc

NOBODY = 65534
SCRIPTS = {
    "cat; printf err >&2; exit 3": lambda i: (i, b"err", 3),
    "printf out; kill -9 $$": lambda i: (b"out", b"", -9),
    "cat >/dev/null; head -c 200000 /dev/zero": lambda i: (b"\0" * 200000, b"", 0),
    "exit 255": lambda i: (b"", b"", 255),
}
PROBE = "umask; pwd; id -u; id -g; id -G"
TEXT = b"caf\xc3\xa9\n\x00\xff"


class Machine:
    def __init__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="real"))
        d = self.d
        os.mkdir(d + "/w")
        shutil.copy(td.__file__, d + "/dispatcher.py")
        with open(d + "/w/file", "wb") as f:
            f.write(TEXT)
        with open(d + "/w/big", "wb") as f:
            f.write(b"0123456789" * 30000)
        with open(d + "/w/root", "wb") as f:
            f.write(b"x")
        os.mkdir(d + "/w/dir")
        os.symlink("file", d + "/w/link")
        os.symlink("nowhere", d + "/w/dangling")
        os.mkfifo(d + "/w/fifo")
        for n in ("", "/w", "/w/file", "/w/big", "/w/dir", "/w/fifo", "/dispatcher.py"):
            os.chown(d + n, NOBODY, NOBODY)
        os.chmod(d + "/w/file", 0o640)
        os.chmod(d + "/w/dir", 0o2755)
        os.chmod(d + "/w/root", 0o600)
        os.utime(d + "/w/dir", ns=(5, -3_000_000_000))

    def close(self):
        shutil.rmtree(self.d)


class Real(tc.TunnelConnector):
    schema = "local"
    scratch = None

    def command(self):
        return ["setsid", "setpriv", f"--reuid={NOBODY}", f"--regid={NOBODY}", "--clear-groups", "--no-new-privs", "env", "-i", "PATH=/usr/bin:/bin", f"HOME={self.scratch}/w",
                "EMPTY=", "LANG=C.UTF-8", "/usr/bin/python3", "-W", "ignore", self.scratch + "/dispatcher.py"]


_able = []


def able():
    if not _able:
        ok = os.getuid() == 0 and all(shutil.which(x) for x in ("setsid", "setpriv")) and os.path.exists("/usr/bin/python3")
        if ok:
            r = subprocess.run(["setpriv", f"--reuid={NOBODY}", f"--regid={NOBODY}", "--clear-groups", "--no-new-privs", "/usr/bin/python3", "-W", "ignore", "-c", "import spwd"],
                               stdin=subprocess.DEVNULL, capture_output=True)
            ok = r.returncode == 0
        _able.append(ok)
    return _able[0]


def run(ctx, c, m):
    kind = ctx.choice("kind", ["script", "probe", "true", "another user", "missing", "empty", "nul", "not executable", "surrogate"])
    cap = ctx.choice("capture", [True, False])
    check = ctx.choice("check", [False, True])
    inp = ctx.choice("input", [None, b"", b"x\x00y\n\xff", b"z" * 300000])
    if kind == "script":
        s = ctx.choice("script", list(SCRIPTS))
        out, err, rc = SCRIPTS[s](inp or b"")
        o = ctx.outcome(rt.callm, c, "run", ["sh", "-c", s], input=inp, capture_output=cap, check=check)
    elif kind == "probe":
        um = ctx.choice("umask", [None, "022", "777", "0", "8", "", "-1", "10000"])
        wd = ctx.choice("cwd", [None, m.d + "/w/dir", m.d + "/w/missing", m.d + "/w/file", "."])
        user = ctx.choice("user", [None, str(NOBODY), "nobody", "root", "no such user", ""])
        group = ctx.choice("group", [None, str(NOBODY), "root", "no such group"])
        o = ctx.outcome(rt.callm, c, "run", ["sh", "-c", PROBE], input=inp, capture_output=cap, check=check, umask=um, cwd=wd, user=user, group=group)
        bad = um in ("8", "", "-1", "10000") or wd in (m.d + "/w/missing", m.d + "/w/file") or user in ("root", "no such user", "") or group in ("root", "no such group")
        if bad:
            ctx.cover("refused")
            ctx.ensure("a command that cannot run as asked is an error", not o.returned and o.raised(ValueError, td.RemoteOSError), o)
            return
        here = os.path.realpath("/proc/self/cwd") if wd in (None, ".") else wd
        out = f"{int(um or '77', 8):04o}\n{here}\n{NOBODY}\n{NOBODY}\n{NOBODY}\n".encode()
        err, rc = b"", 0
    elif kind == "another user":
        who = ctx.choice("as", [dict(user="root"), dict(group="root"), dict(user="nobody", group="root"), dict(user="0", cwd=m.d + "/w/dir")])
        o = ctx.outcome(rt.callm, c, "run", ["true"], input=inp, capture_output=cap, check=check, **who)
        ctx.cover("refused")
        ctx.ensure("a command that cannot run as asked is an error", not o.returned and o.raised(ValueError, td.RemoteOSError), o)
        return
    elif kind == "true":
        o = ctx.outcome(rt.callm, c, "run", ["true"], input=inp, capture_output=cap, check=check)
        out, err, rc = b"", b"", 0
    else:
        cmd = {"missing": ["no-such-program-exists"], "empty": [], "nul": ["echo", "a\0b"], "not executable": [m.d + "/w/file"], "surrogate": ["echo", "\ud800"]}[kind]
        o = ctx.outcome(rt.callm, c, "run", cmd, input=inp, capture_output=cap, check=check)
        ctx.cover("refused")
        ctx.ensure("a command that cannot be started is an error", not o.returned and o.raised(ValueError, td.RemoteOSError, IndexError), o)
        return
    ctx.cover("ran")
    if check and rc != 0:
        ok = o.raised(subprocess.CalledProcessError)
        ctx.ensure("a failing checked command raises", ok, o)
        if not ok:
            return
        r = types.SimpleNamespace(returncode=o.exc.returncode, stdout=o.exc.stdout, stderr=o.exc.stderr)
    else:
        ctx.ensure("the result is returned", o.returned, o)
        if not o.returned:
            return
        r = o.value
    ctx.ensure("exit status", r.returncode == rc, r.returncode)
    ctx.ensure("output", (r.stdout, r.stderr) == ((out, err) if cap else (None, None)), (str(r)[:200], out[:100]))


def tree(m, path):
    try:
        s = os.lstat(path)
        return (s.st_mode, s.st_uid, s.st_gid, open(path, "rb").read() if stat.S_ISREG(s.st_mode) else None)
    except OSError:
        return None


def stat_(ctx, c, m):
    n = ctx.choice("path", ["file", "dir", "link", "dangling", "fifo", "root", "missing", "file/x", "", "a\0b", "\ud800"])
    follow, sha = ctx.choice("follow", [False, True]), ctx.choice("sha", [False, True])
    p = m.d + "/w/" + n if n else ""
    o = ctx.outcome(rt.callm, c, "stat", p, follow_links=follow, sha512sum=sha)
    try:
        s = os.stat(p, follow_symlinks=follow)
    except (OSError, ValueError) as e:
        if isinstance(e, FileNotFoundError):
            ctx.ensure("nothing is reported for a missing path", o.returned and o.value is None, o)
        else:
            ctx.ensure("a path that cannot be examined is an error", not o.returned and o.raised(ValueError, td.RemoteOSError), o)
        return
    if n == "root" and sha:
        ctx.ensure("a file that cannot be read is an error", o.raised(td.RemoteOSError), o)
        return
    ctx.cover("ran")
    ctx.ensure("the path is examined", o.returned and o.value is not None, o)
    if o.returned and o.value is not None:
        v = o.value
        t = {stat.S_IFREG: "file", stat.S_IFDIR: "dir", stat.S_IFLNK: "link", stat.S_IFIFO: "fifo"}[stat.S_IFMT(s.st_mode)]
        h = hashlib.sha512(open(p, "rb").read()).digest() if sha and t == "file" else None
        ctx.ensure("the truth is reported", (v.type, v.mode, v.owner, v.group, v.size, v.mtime, v.ctime, v.sha512sum) ==
                   (t, f"{stat.S_IMODE(s.st_mode):o}", pwd.getpwuid(s.st_uid).pw_name, grp.getgrgid(s.st_gid).gr_name, s.st_size, s.st_mtime_ns, s.st_ctime_ns, h), (vars(v), s))


def lookup(ctx, c, m):
    what = ctx.choice("what", ["resolve_user", "resolve_group", "query_user", "query_group", "hash"])
    n = ctx.choice("name", ["root", "0", "daemon", "nobody", str(NOBODY), "no such", "", "54321", " 0", None])
    if what in ("query_user", "query_group", "hash") and n is None:
        return
    if what == "hash":
        o = ctx.outcome(rt.callm, c, "query_user", n, query_password_hash=True)
    else:
        o = ctx.outcome(rt.callm, c, what, n)
    user = what in ("resolve_user", "query_user", "hash")
    try:
        e = (pwd.getpwnam if user else grp.getgrnam)(n if n is not None else "nobody" if user else grp.getgrgid(NOBODY).gr_name)
    except KeyError:
        try:
            e = (pwd.getpwuid if user else grp.getgrgid)(int(n))
        except (KeyError, ValueError):
            ctx.ensure("an unknown account is an error", o.raised(ValueError), o)
            return
    if what == "hash":
        ctx.ensure("a password hash that cannot be read is an error, not an answer", o.raised(td.RemoteOSError), o)
        return
    ctx.cover("ran")
    ctx.ensure("a known account is found", o.returned, o)
    if not o.returned:
        return
    v = o.value
    if what.startswith("resolve"):
        ctx.ensure("the canonical name", v == e[0], v)
    elif user:
        ctx.ensure("the account entry", (v.name, v.uid, v.group, v.gid, sorted(v.groups), v.password_hash, v.gecos, v.home, v.shell) ==
                   (e.pw_name, e.pw_uid, grp.getgrgid(e.pw_gid).gr_name, e.pw_gid, sorted(g.gr_name for g in grp.getgrall() if e.pw_name in g.gr_mem), None, e.pw_gecos, e.pw_dir, e.pw_shell), v)
    else:
        ctx.ensure("the group entry", (v.name, v.gid, v.members) == (e.gr_name, e.gr_gid, e.gr_mem), v)


def files(ctx, c, m):
    n = ctx.choice("path", ["new", "file", "dir", "missing/x", "root", "a\0b", "link"])
    p = m.d + "/w/" + n
    if ctx.choice("download?", [False, True]):
        o = ctx.outcome(rt.callm, c, "download", p)
        try:
            want = None if n == "root" else open(p, "rb").read()
        except (OSError, ValueError):
            want = None
        if want is None:
            ctx.ensure("a file that cannot be read is an error", not o.returned and o.raised(ValueError, td.RemoteOSError), o)
        else:
            ctx.cover("ran")
            ctx.ensure("the content is downloaded", o.returned and o.value == want, o)
        return
    content = ctx.choice("content", [b"", TEXT, b"y" * 300000])
    mode = ctx.choice("mode", [None, "644", "4755", "888", "", "-1", "17777"])
    owner = ctx.choice("owner", [None, "nobody", str(NOBODY), "root", "no such"])
    group = ctx.choice("group", [None, str(NOBODY), "no such"])
    before = tree(m, p if "\0" not in p else "/nonexistent")
    o = ctx.outcome(rt.callm, c, "upload", p, content, mode=mode, owner=owner, group=group)
    if mode in ("888", "", "-1", "17777") or owner == "no such" or group == "no such":
        ctx.cover("refused")
        ctx.ensure("an invalid upload is an error", o.raised(ValueError, td.RemoteOSError), o)
        if "\0" not in p:
            ctx.ensure("an invalid upload changes nothing", tree(m, p) == before, (before, tree(m, p)))
        return
    bad = n in ("dir", "missing/x", "root", "a\0b") or owner == "root" or owner is None and group is not None
    if bad:
        ctx.ensure("an upload that cannot be done is an error", o.raised(ValueError, td.RemoteOSError), o)
        return
    ctx.cover("ran")
    ctx.ensure("the upload succeeds", o.returned, o)
    s = os.stat(p)
    ctx.ensure("the content is there", open(p, "rb").read() == content)
    ctx.ensure("with its owner", (s.st_uid, s.st_gid) == (NOBODY, NOBODY), s)
    want = int(mode, 8) if mode is not None else 0o600 if n == "new" and before is None else None
    if want is not None:
        ctx.ensure("with its mode", stat.S_IMODE(s.st_mode) == want, oct(s.st_mode))


def env(ctx, c, m):
    k = ctx.choice("key", ["HOME", "EMPTY", "NO_SUCH_VARIABLE", "", "A=B", "\ud800"])
    o = ctx.outcome(rt.callm, c, "getenv", k)
    if k == "\ud800":     # not a text the environment can hold
        ctx.ensure("no value is made up", o.raised(ValueError, td.RemoteOSError) or o.returned and o.value is None, o)
        return
    ctx.ensure("the variable is reported as it is", o.returned and o.value == {"HOME": m.d + "/w", "EMPTY": ""}.get(k), o)


KINDS = {"run": run, "stat": stat_, "lookup": lookup, "files": files, "getenv": env}
ASSUMES = ["bounded: sequences of up to four requests to a dispatcher process of an unprivileged user in a scratch directory (needs root, setpriv, setsid; skipped otherwise)"]


def body(kinds, n):
    def go(ctx):
        if not able():
            raise Unsupported("no unprivileged user to run the dispatcher")
        fora.args = S.Args(debug=False, dry=False, verbose=0, changes=False, diff=False, no_color=True)
        rt.ALLOW_REAL.update({subprocess.Popen, subprocess.Popen.wait, subprocess.Popen.poll, subprocess.Popen.terminate})
        td.is_server = False
        m = Machine()
        c = Real("local:h", types.SimpleNamespace(name="h", url="local:h"))
        c.scratch = m.d
        hung = []
        timer = None
        err = os.open(os.devnull, os.O_WRONLY)
        saved = sys.stderr
        sys.stderr = io.TextIOWrapper(os.fdopen(err, "wb"))
        try:
            rt.callm(c, "open")
            pid = c.process.pid

            def stop():
                hung.append(True)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            timer = threading.Timer(10, stop)
            timer.start()
            for i in range(ctx.choice("requests", [1] if n == 1 else list(range(1, n + 1)))):
                kinds_ = kinds if i == 0 else list(KINDS)
                KINDS[ctx.choice(f"request {i}", kinds_) if len(kinds_) > 1 else kinds_[0]](ctx, c, m)
                ctx.ensure("the request is answered", not hung, kinds_)
                o = ctx.outcome(_ping, c)
                ctx.ensure("the next request is answered by its own response", o.returned and type(o.value) is td.PacketAck, o)
                if not (o.returned and type(o.value) is td.PacketAck):
                    return
            p = c.process
            rt.callm(c, "close")
            ctx.ensure("the dispatcher ends with the connection", p.returncode == 0 and not hung, p.returncode)
        finally:
            if timer is not None:
                timer.cancel()
            if c.process is not None:
                try:
                    os.killpg(c.process.pid, signal.SIGKILL)
                except OSError:
                    pass
                c.process.wait()
                for f in (c.process.stdin, c.process.stdout):
                    try:
                        f.close()
                    except OSError:
                        pass
            sys.stderr.close()
            sys.stderr = saved
            m.close()
    return go


def _ping(c):
    return rt.callm(c, "_request", td.PacketCheckAlive())


FUN = ["fora.connectors.tunnel_dispatcher._main", "fora.connectors.tunnel_dispatcher.Packet*.handle", "fora.connectors.tunnel_connector.TunnelConnector.*"]
K = dict(functions=FUN, prove=False, assumes=ASSUMES, enum=0)
harness("C02", "real dispatcher", covers=["ran", "refused"], samples=250, seconds=60, **K)(body(list(KINDS), 4))
harness("C03", "real dispatcher", covers=["ran", "refused"], samples=250, seconds=60, **K)(body(["run"], 1))
harness("C04", "real dispatcher", covers=["ran", "refused"], samples=350, seconds=60, **K)(body(["stat", "lookup", "files", "getenv"], 1))


class Interrupt(BaseException):
    pass


class Cut:
    """The response stream, interrupted at its k-th read."""

    def __init__(self, f, k):
        self.f, self.k = f, k

    def read(self, n=-1):
        self.k -= 1
        if self.k < 0:
            raise Interrupt()
        return self.f.read(n)

    def __getattr__(self, n):
        return getattr(self.f, n)


@harness("C15", "real connection", functions=["fora.connectors.tunnel_connector.TunnelConnector.open", "fora.connectors.tunnel_connector.TunnelConnector.close"], prove=False, enum=200, samples=60,
         seconds=60, covers=["interrupted", "closed"], assumes=["bounded: one request to a real dispatcher process, interrupted at one of its reads"])
def real_connection(ctx):
    if not able():
        raise Unsupported("no unprivileged user to run the dispatcher")
    fora.args = S.Args(debug=False, dry=False, verbose=0, changes=False, diff=False, no_color=True)
    rt.ALLOW_REAL.update({subprocess.Popen, subprocess.Popen.wait, subprocess.Popen.poll, subprocess.Popen.terminate})
    td.is_server = False
    m = Machine()
    c = Real("local:h", types.SimpleNamespace(name="h", url="local:h"))
    c.scratch = m.d
    saved = sys.stderr
    sys.stderr = io.TextIOWrapper(open(os.devnull, "wb"))
    hung, timer, pid = [], None, None
    try:
        rt.callm(c, "open")
        proc, pid = c.process, c.process.pid

        def stop():
            hung.append(True)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        timer = threading.Timer(10, stop)
        timer.start()
        k = ctx.choice("interrupted at read", [0, 1, 2, 3, 5, 99])
        what = ctx.choice("request", ["large output", "large file", "small", "dies"])
        real_in = c.conn.buffer_in
        c.conn.buffer_in = Cut(real_in, k)
        try:
            if what == "large output":
                rt.callm(c, "run", ["head", "-c", "3000000", "/dev/zero"])
            elif what == "large file":
                rt.callm(c, "download", m.d + "/w/big")
            elif what == "small":
                rt.callm(c, "resolve_user", "root")
            else:
                try:
                    rt.callm(c, "run", ["sh", "-c", "kill -9 $PPID"])
                except OSError:
                    pass
        except Interrupt:
            ctx.cover("interrupted")
        c.conn.buffer_in = real_in
        o = ctx.outcome(rt.callm, c, "close")
        ctx.cover("closed")
        ctx.ensure("closing the connection never waits forever", not hung, (what, k))
        ctx.ensure("closing the connection raises nothing", o.returned, o)
        ctx.ensure("the process is gone", c.process is None and proc.returncode is not None and not c.is_open, proc.returncode)
    finally:
        if timer is not None:
            timer.cancel()
        if c.process is not None:
            try:
                os.killpg(c.process.pid, signal.SIGKILL)
            except OSError:
                pass
            c.process.wait()
        sys.stderr.close()
        sys.stderr = saved
        m.close()
