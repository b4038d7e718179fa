"""The remote end: assumed contracts of the operating system under the dispatcher,
and the channel that joins a real client connector to the real dispatcher main loop."""
import argparse
import builtins
import errno as E
import grp
import hashlib
import io
import os
import pwd
import stat as stat_mod
import subprocess
import sys
import types

import z3

from pyvc import core, rt, sym
from pyvc.core import PathEnd, Unsupported
from pyvc.sym import Atom, SymBool, SymBytes, SymInt, SymStr, force
from specs import wirelib as W
from specs.wirelib import td

import fora
import fora.connectors.tunnel_connector as tc

NAMES = ["alice", "bob", "0", "1000", "77777", "nobody!", ""]
GNAMES = ["wheel", "users", "0", "100", "77777", "nogroup!", ""]
OCTS = ["022", "77", "644", "0", "4755", "999", "abc", "", "77777777777777777777", "-7", "17777", "0o17"]
PATHS = ["/srv/x", "/srv/y", "-d", ""]
ERRNOS = [E.ENOENT, E.EACCES, E.ENOTDIR, E.EPERM, E.ELOOP]


def oserror(ctx, name, pick=None):
    """Some OSError the kernel reports."""
    n = ctx.int(name + ".errno", lo=1, hi=200, dom=ERRNOS)
    s = ctx.str(name + ".strerror", dom=["No such file or directory", "bad", "ä"])
    if ctx.symbolic:
        e = OSError()
        e.errno, e.strerror = n, s
        e.args = (n, s)
        return e
    return OSError(n, s)


class Rec(types.SimpleNamespace):
    """A passwd/group/stat record."""


class Child:
    """The process being started."""

    def __init__(self, srv):
        self.uid, self.gid, self.umask, self.cwd, self.privileged = srv.uid, srv.gid, srv.umask, srv.cwd, srv.privileged
        self.groups = ("inherited",)    # or ("user", name, gid), ("list", [...])


class File:
    def __init__(self, srv, path, mode):
        self.srv, self.path, self.mode, self.closed = srv, path, mode, False
        self.dirty = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True
        self.srv.fs_close(self)

    def fileno(self):
        return FD(self)

    def flush(self):
        pass

    def read(self, n=-1):
        if "r" not in self.mode:
            raise io.UnsupportedOperation("read")
        if not (isinstance(n, int) and n == -1):
            raise Unsupported("partial file read")
        return self.srv.fs_content(self.path)

    def write(self, data):
        if "w" not in self.mode:
            raise Unsupported("write in mode " + self.mode)
        self.srv.fs_write(self, data)
        return len(data) if not isinstance(data, sym.Sym) else data.sym_len()


class FD:
    def __init__(self, f):
        self.f = f


class Server:
    """Ghost state of the machine the dispatcher runs on."""

    def __init__(self, ctx, faults=True):
        self.ctx = ctx
        self.faults = faults            # every system call may fail
        self.uid = ctx.int("srv.uid", lo=0, hi=2**31, dom=[0, 1000])
        self.gid = ctx.int("srv.gid", lo=0, hi=2**31, dom=[0, 100])
        self.umask0 = 0o22
        self.umask = 0o22
        self.cwd = "/"
        self.privileged = ctx.bool("srv.privileged")
        self.execs = []                 # (command, stdin, child, captured)
        self.child = None
        self.effects = []               # mutations of the machine
        self.file = None                # the file written by an upload
        self.bad = False
        self.failed = False             # a system call failed
        self.uids = []                  # ids found by name

    # -- failures
    def fault(self, name, make=None):
        """Demonic failure of a system call."""
        if not self.faults:
            return
        if self.ctx.choice(name + "?", [False, True]):
            self.failed = True
            raise make() if make else oserror(self.ctx, name)

    # -- user database (functions of the query)
    def pwnam(self, name):
        name = force(name)
        if name is None:
            raise TypeError("getpwnam() argument must be str, not None")
        self.badtext("getpwnam", name)
        c = self.ctx
        if not bool(c.fn("pw_exists", "bool", name)):
            raise KeyError("getpwnam(): name not found")
        uid = self._id(c.fn("pw_uid", "int", name, dom=[0, 1000, 1001]))
        if c.symbolic:                  # whoever is found by name is found by id
            c.axiom(c.fn("pwu_exists", "bool", uid).z)
        else:
            self.uids.append(uid)
        return Rec(pw_name=name, pw_uid=uid, pw_gid=self._id(c.fn("pw_gid", "int", name, dom=[0, 100, 1001])),
                   pw_gecos=c.fn("pw_gecos", "str", name), pw_dir=c.fn("pw_dir", "str", name), pw_shell=c.fn("pw_shell", "str", name))

    def pwuid(self, uid):
        uid = force(uid)
        c = self.ctx
        ex = c.fn("pwu_exists", "bool", uid)
        if c.symbolic and isinstance(uid, sym.Sym):
            c.axiom(z3.Implies(ex.z, z3.And(uid.z >= 0, uid.z < 2**32 - 1)))
        if not bool(ex) and not (not c.symbolic and uid in self.uids):
            raise KeyError("getpwuid(): uid not found")
        n = c.fn("pwu_name", "str", uid, dom=["alice", "root", "zed"])
        return Rec(pw_name=n, pw_uid=uid, pw_gid=self._id(c.fn("pwu_gid", "int", uid, dom=[0, 100, 1001])),
                   pw_gecos=c.fn("pwu_gecos", "str", uid), pw_dir=c.fn("pwu_dir", "str", uid), pw_shell=c.fn("pwu_shell", "str", uid))

    def grnam(self, name):
        name = force(name)
        if name is None:
            raise TypeError("getgrnam() argument must be str, not None")
        self.badtext("getgrnam", name)
        c = self.ctx
        if not bool(c.fn("gr_exists", "bool", name)):
            raise KeyError("getgrnam(): name not found")
        return Rec(gr_name=name, gr_gid=self._id(c.fn("gr_gid", "int", name, dom=[0, 100, 1001])), gr_mem=self.members("gr", name))

    def grgid(self, gid):
        gid = force(gid)
        c = self.ctx
        ex = c.fn("grg_exists", "bool", gid)
        if c.symbolic and isinstance(gid, sym.Sym):
            c.axiom(z3.Implies(ex.z, z3.And(gid.z >= 0, gid.z < 2**32 - 1)))
        if not bool(ex):
            raise KeyError("getgrgid(): gid not found")
        return Rec(gr_name=c.fn("grg_name", "str", gid, dom=["wheel", "root", "zed"]), gr_gid=gid, gr_mem=self.members("grg", gid))

    def _id(self, v):
        if self.ctx.symbolic:
            self.ctx.axiom(z3.And(v.z >= 0, v.z < 2**32 - 1))
        return v

    def members(self, kind, key):
        if self.ctx.symbolic:
            from pyvc.loops import SymSeq
            n = self.ctx.fn(kind + "_nmem", "int", key)
            self.ctx.axiom(z3.And(n.z >= 0, n.z < 2**31))
            return SymSeq(kind + "_mem", n, lambda k: self.ctx.fn(kind + "_mem_at", "str", key, k), contract=W.SeqWrite(kind + "_mem"))
        return self.ctx.fn(kind + "_mem", "str", key, dom=[[], ["alice"], ["bob", "alice"]])

    def spnam(self, name):
        self.fault("getspnam", lambda: PermissionError(13, "Permission denied"))
        c = self.ctx
        if not bool(c.fn("sp_exists", "bool", name)):
            raise KeyError("getspnam(): name not found")
        return Rec(sp_pwdp=c.fn("sp_hash", "str", name), sp_namp=name)

    def badtext(self, what, *texts):
        """Text the C library cannot take: an embedded NUL byte or an unencodable character."""
        c = self.ctx
        for t in texts:
            t = force(t)
            if c.symbolic:
                if isinstance(t, sym.Sym) and bool(SymBool(sym.ufn("has_nul", sym.S, sym.B)(t.z))):
                    raise ValueError("embedded null byte")
            elif isinstance(t, str) and "\0" in t:
                raise ValueError("embedded null byte")

    # -- reference semantics of names, used by the specifications
    def spec_user(self, user):
        """(valid, uid, primary gid) a user string denotes: a name, else a decimal uid."""
        return self._spec(user, self.pwnam, self.pwuid, lambda r: (r.pw_uid, r.pw_gid))

    def spec_group(self, group):
        return self._spec(group, self.grnam, self.grgid, lambda r: (r.gr_gid,))

    def spec_user_name(self, user):
        return self._spec(user, self.pwnam, self.pwuid, lambda r: (r.pw_name,))

    def spec_group_name(self, group):
        return self._spec(group, self.grnam, self.grgid, lambda r: (r.gr_name,))

    def _spec(self, s, by_name, by_id, get):
        f, self.faults = self.faults, False
        try:
            try:
                return get(by_name(s))
            except KeyError:
                pass
            except ValueError:
                self.bad = True         # not even representable as a name
                return None
            try:
                return get(by_id(rt._int(s) if self.ctx.symbolic else int(s)))
            except (KeyError, ValueError):
                return None
        finally:
            self.faults = f

    def spec_oct(self, s):
        """Value of an octal permission string, or None when it is not one."""
        try:
            v = rt._int(s, 8) if self.ctx.symbolic else int(s, 8)
        except ValueError:
            return None
        return v if bool(sym.conj(v >= 0, v <= 0o7777)) else None

    # -- process credentials
    def who(self):
        return self.child if self.child is not None else self

    def os_umask(self, m):
        w = self.who()
        m = force(m)
        old, w.umask = w.umask, m
        return old

    def os_setresgid(self, r, e, s):
        w = self.who()
        if not bool(w.privileged) and not bool(sym.conj(r == w.gid, e == w.gid, s == w.gid)):
            raise PermissionError(1, "Operation not permitted")
        w.gid = e
        w.rgid = (r, e, s)

    def os_setresuid(self, r, e, s):
        w = self.who()
        if not bool(w.privileged) and not bool(sym.conj(r == w.uid, e == w.uid, s == w.uid)):
            raise PermissionError(1, "Operation not permitted")
        w.uid = e
        if not bool(e == 0):
            w.privileged = False

    def set_groups(self, *groups):
        w = self.who()
        if not bool(w.privileged):
            raise PermissionError(1, "Operation not permitted")
        w.groups = groups

    def os_setgroups(self, groups):
        groups = force(groups)
        if type(groups) is tuple and groups[:1] == ("user",):
            self.set_groups(*groups)
        else:
            self.set_groups("list", list(groups))

    def os_chdir(self, p):
        w = self.who()
        if w is not self and self.faults and self.ctx.choice("chdir?", [False, True]):
            self.failed = True
            raise oserror(self.ctx, "chdir")
        w.cwd = p

    def os_path_isdir(self, p):
        self.badtext("isdir", p) if False else None
        return self.ctx.fn("isdir", "bool", p)

    # -- programs
    def sp_run(self, args, *pos, input=None, capture_output=False, cwd=None, preexec_fn=None, check=False, user=None, group=None, umask=-1,
               stdin=None, stdout=None, stderr=None, extra_groups=None, env=None, shell=False, **kw):
        """subprocess.run (assumed): chdir(cwd), then umask/group/user, then preexec_fn, then exec."""
        ctx = self.ctx
        if pos or kw or shell or env is not None:
            raise Unsupported(f"subprocess.run options {sorted(kw)}")
        args, input, cwd = force(args), force(input), force(cwd)
        cap = force(capture_output)
        stdin, stdout, stderr = force(stdin), force(stdout), force(stderr)
        has_input, cap = input is not None, bool(cap)
        if has_input and stdin is not None:
            raise ValueError("stdin and input arguments may not both be used.")
        if cap and (stdout is not None or stderr is not None):
            raise ValueError("stdout and stderr arguments may not be used with capture_output.")
        if stdout == subprocess.PIPE and stderr == subprocess.PIPE:
            cap = True
        # a stream that is not redirected is the dispatcher's own
        shares = [w for w, shared in (("stdin", not has_input and self._stream(stdin, 0)), ("stdout", not cap and self._stream(stdout, 1)),
                                      ("stderr", not cap and self._stream(stderr, 2))) if shared]
        self.fault("command text", lambda: ValueError("embedded null byte"))
        n = args.sym_len() if hasattr(args, "sym_len") else len(args)
        if bool(n == 0):
            raise IndexError("list index out of range")
        self.fault("fork")
        ch = self.child = Child(self)
        try:
            if cwd is not None:
                if self.faults and ctx.choice("child chdir?", [False, True]):
                    self.failed = True
                    raise oserror(ctx, "child_chdir")
                ch.cwd = cwd
            if not (isinstance(umask, int) and umask == -1):
                ch.umask = umask
            if extra_groups is not None:
                self.os_setgroups(extra_groups)
            if group is not None:
                self.os_setresgid(group, group, group)
            if user is not None:
                self.os_setresuid(user, user, user)
            if preexec_fn is not None:
                try:
                    preexec_fn()
                except core.Abort:
                    raise
                except Exception:
                    raise subprocess.SubprocessError("Exception occurred in preexec_fn.") from None
        finally:
            self.child = None
        self.fault("exec")
        captured = cap
        self.execs.append(types.SimpleNamespace(command=args, stdin=input, child=ch, captured=captured, shares=shares))
        rc = ctx.int("returncode", lo=-64, hi=255, dom=[0, 1, 255, -9])
        so = ctx.bytes("stdout", dom=[b"", b"out\n", b"\xff\x00"])
        se = ctx.bytes("stderr", dom=[b"", b"err"])
        r = Rec(args=args, returncode=rc, stdout=so if captured else None, stderr=se if captured else None)
        self.last = r
        if check and bool(rc != 0):
            raise subprocess.CalledProcessError(rc, args, so, se)
        return r

    def _stream(self, s, default):
        """Whether this stream of a program is the standard input or output of the dispatcher, which carries the connection."""
        if s is None:
            return default in (0, 1)
        if isinstance(s, int) and not isinstance(s, bool):
            if s == subprocess.DEVNULL or s == subprocess.PIPE and default == 0:
                return False
            if 0 <= s <= 2:
                return s in (0, 1)
        elif s is sys.stderr or s is sys.__stderr__:
            return False
        elif s is sys.stdin or s is sys.stdout or s is sys.stdin.buffer or s is sys.stdout.buffer:
            return True
        raise Unsupported(f"stream {s!r}")

    # -- files
    def os_open_builtin(self, path, mode="r", *a, **k):
        if a or k:
            raise Unsupported("open() options")
        path = force(path)
        if isinstance(path, FD):
            raise Unsupported("open of a descriptor")
        if self.faults:
            self.badtext("open", path)
        w = "w" in mode or "a" in mode or "+" in mode or "x" in mode
        self.fault("open")
        if not w:
            if "b" not in mode:
                raise Unsupported("text mode file")
            f = File(self, path, mode)
            return f
        if mode not in ("wb", "bw"):
            raise Unsupported(f"open mode {mode}")
        f = File(self, path, mode)
        self.effects.append(("open", path))
        new = bool(self.ctx.fn("file_is_new", "bool", path))
        if self.file is None or self.file.path is not path:
            self.file = Rec(path=path, content=b"", new=new, owner=self.uid, group=self.gid, mode=None,
                            suid_cleared=False)
            if new:
                self.file.mode = ("umask", self.umask)
        else:
            self.file.content = b""
        return f

    def fs_write(self, f, data):
        self.fault("write")
        self.file.content = self.file.content + force(data)
        f.dirty = True

    def fs_close(self, f):
        if f.dirty:
            self.fault("close")

    def fs_content(self, path):
        return self.ctx.fn("file_content", "bytes", path, dom=[b"", b"data", bytes(range(256))])

    def _target(self, path, what):
        path = force(path)
        if isinstance(path, FD):
            path = path.f.path
        if self.file is None or not bool(path == self.file.path):
            raise Unsupported(f"{what} of another path")
        return self.file

    def os_chmod(self, path, mode, **kw):
        if kw:
            raise Unsupported("chmod options")
        f = self._target(path, "chmod")
        mode = force(mode)
        if bool(sym.disj(mode < -2**31, mode > 2**31 - 1)):
            raise OverflowError("Python int too large to convert to C int")
        self.fault("chmod")
        f.mode = ("set", mode)
        f.suid_cleared = False
        self.effects.append(("chmod", f.path))

    def os_chown(self, path, uid, gid, **kw):
        if kw:
            raise Unsupported("chown options")
        f = self._target(path, "chown")
        self.fault("chown")
        uid, gid = force(uid), force(gid)
        if uid is None or gid is None:
            raise TypeError("uid should be integer, not NoneType")
        if not bool(uid == -1):
            f.owner = uid
        if not bool(gid == -1):
            f.group = gid
        f.suid_cleared = True           # the kernel drops set-id bits when the owner changes
        self.effects.append(("chown", f.path))

    def os_stat(self, path, *a, follow_symlinks=True, dir_fd=None):
        if a:
            raise Unsupported("stat options")
        path = force(path)
        self.badtext("stat", path)
        fl = bool(follow_symlinks)
        self.fault("stat")
        self.stat_followed = fl
        fmt = self.ctx.choice("file format", [stat_mod.S_IFREG, stat_mod.S_IFDIR, stat_mod.S_IFCHR, stat_mod.S_IFBLK, stat_mod.S_IFIFO,
                                              stat_mod.S_IFLNK, stat_mod.S_IFSOCK, 0])
        perm = self.ctx.int("perm", lo=0, hi=0o7777, dom=[0o644, 0o7777, 0, 0o2755])
        if fl and fmt == stat_mod.S_IFLNK:
            raise PathEnd()
        c = self.ctx
        self.st = Rec(fmt=fmt, perm=perm, st_mode=perm + fmt, st_uid=self._id(c.int("st_uid", lo=0, hi=2**32 - 2, dom=[0, 1000])), st_gid=self._id(c.int("st_gid", lo=0, hi=2**32 - 2, dom=[0, 100])),
                      st_size=c.int("st_size", lo=0, hi=2**63 - 1, dom=[0, 5, 2**40]), st_mtime_ns=c.int("st_mtime_ns", lo=-2**62, hi=2**62, dom=[0, 10**18, -5]),
                      st_ctime_ns=c.int("st_ctime_ns", lo=-2**62, hi=2**62, dom=[0, 10**18 + 1]), st_mtime=0.5, st_ctime=0.25)
        return self.st

    def getenv(self, key, default=None):
        key = force(key)
        if self.faults and self.ctx.choice("environment key not encodable?", [False, True]):
            raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        if not bool(self.ctx.fn("env_set", "bool", key)):
            return default
        return self.ctx.fn("env_value", "str", key)

    # -- installation
    def install(self):
        X = rt.EXTERNALS
        for n, f in (("getpwnam", self.pwnam), ("getpwuid", self.pwuid)):
            X[getattr(pwd, n)] = f
        for n, f in (("getgrnam", self.grnam), ("getgrgid", self.grgid), ("getgrall", self.getgrall)):
            X[getattr(grp, n)] = f
        X[td.getspnam] = self.spnam
        X[os.umask] = self.os_umask
        X[os.setresgid], X[os.setresuid], X[os.chdir] = self.os_setresgid, self.os_setresuid, self.os_chdir
        X[os.setgid], X[os.setuid] = (lambda g: self.os_setresgid(g, g, g)), (lambda u: self.os_setresuid(u, u, u))
        X[os.setregid], X[os.setreuid] = (lambda r, e: self.os_setresgid(r, e, e)), (lambda r, e: self.os_setresuid(r, e, e))
        X[os.initgroups] = lambda name, gid: self.set_groups("user", name, gid)
        X[os.getgrouplist] = lambda name, gid: ("user", name, gid)
        X[os.setgroups] = self.os_setgroups
        X[os.path.isdir] = self.os_path_isdir
        X[subprocess.run] = self.sp_run
        X[builtins.open] = self.os_open_builtin
        X[os.chmod], X[os.chown], X[os.stat] = self.os_chmod, self.os_chown, self.os_stat
        X[os.fchmod], X[os.fchown] = self.os_chmod, self.os_chown
        X[os.lstat] = lambda p: self.os_stat(p, follow_symlinks=False)
        X[os.getenv] = self.getenv
        X[os.environ.get] = self.getenv
        X[os.getuid], X[os.getgid] = (lambda: self.uid), (lambda: self.gid)
        X[os.geteuid], X[os.getegid] = (lambda: self.uid), (lambda: self.gid)
        X[hashlib.sha512] = Sha
        if self.ctx.symbolic:
            for n, v in (("S_ISDIR", stat_mod.S_IFDIR), ("S_ISCHR", stat_mod.S_IFCHR), ("S_ISBLK", stat_mod.S_IFBLK), ("S_ISREG", stat_mod.S_IFREG),
                         ("S_ISFIFO", stat_mod.S_IFIFO), ("S_ISLNK", stat_mod.S_IFLNK), ("S_ISSOCK", stat_mod.S_IFSOCK)):
                X[getattr(stat_mod, n)] = self._isfmt(v)
            X[stat_mod.S_IMODE] = lambda m: m % 4096
            X[stat_mod.S_IFMT] = lambda m: m - m % 4096

    @staticmethod
    def _isfmt(v):
        return lambda m: SymBool(m.z - m.z % 4096 == v)

    def getgrall(self):
        c = self.ctx
        if c.symbolic:
            from pyvc.loops import Filtered, SymSeq
            n = c.int("ngroups", lo=0, hi=2**31)
            self.grall = SymSeq("groups", n, self.group_at, contract=Filtered(W.SeqWrite))
            return self.grall
        k = c.choice("ngroups", [0, 1, 2])
        self.grall = [Rec(gr_name=["wheel", "users"][i], gr_gid=i, gr_mem=c.choice(f"members[{i}]", [[], ["alice"], ["bob", "zed", "root"], ["alicex"]]),
                          ) for i in range(k)]
        return self.grall

    def group_at(self, k):
        c = self.ctx
        return Rec(gr_name=c.fn("grall_name", "str", k), gr_gid=c.fn("grall_gid", "int", k), gr_mem=Members(self, k), index=k)


class Members:
    """Member list of an arbitrary group, known through membership only."""

    def __init__(self, srv, k):
        self.srv, self.k = srv, k

    def sym_contains(self, name):
        return self.srv.ctx.fn("is_member", "bool", self.k, name)

    def __iter__(self):
        raise Unsupported("iterating a member list")


class Sha:
    """hashlib.sha512 as an uninterpreted function of the content."""

    def __init__(self, data=b"", **kw):
        self.data = force(data)

    def update(self, d):
        self.data = self.data + force(d)

    def digest(self):
        return core.cur().fn("sha512", "bytes", self.data, dom=[b"D" * 64, b"E" * 64])

    def hexdigest(self):
        return core.cur().fn("sha512hex", "str", self.data)


# ---------------------------------------------------------------------------
class Chan:
    """One direction of the connection: bytes, or whole messages under the wire contract (C01)."""

    def __init__(self):
        self.items = []
        self.writes = 0
        self.flushed = True

    def take(self):
        return self.items.pop(0)


class End:
    """Byte interface of a channel end (used when the code bypasses the message contract)."""

    def __init__(self, link, chan, pump=None):
        self.link, self.chan, self.pump = link, chan, pump
        self.buf = b""
        self.closed = False

    def write(self, d):
        d = force(d)
        if self.link.ctx.symbolic:
            raise Unsupported("bytes written around the message contract")
        self.chan.items.append(bytes(d))
        return len(d)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def read(self, n=-1):
        if self.link.ctx.symbolic:
            raise Unsupported("bytes read around the message contract")
        while len(self.buf) < n:
            if not self.chan.items:
                if self.pump is None or not self.pump():
                    break
                continue
            self.buf += self.chan.items.pop(0)
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


class Link:
    """Client connection <-> dispatcher process."""

    def __init__(self, ctx, srv):
        self.ctx, self.srv = ctx, srv
        self.c2s, self.s2c = Chan(), Chan()
        self.server_runs = 0
        self.server_exit = None
        self.responses = []
        self.requests = []
        self.spawned = []
        self.alive = True
        self.died = None
        self.conns = {}
        self.popen = None

    # -- wire contract
    def write_packet(self, f, *args, **kw):
        conn, packet = (f.__self__, args[0]) if hasattr(f, "__self__") else (args[0], args[1])
        end = conn.buffer_out
        if not isinstance(end, End):
            return NotImplemented
        if not getattr(packet, "_is_packet", False):
            raise ValueError("Invalid argument: Must be a packet!")
        for name, t in W.field_types(type(packet)).items():
            if not well_typed(self.ctx, getattr(packet, name), t):
                raise TypeError(f"field {name}")
        end.chan.items.append(packet)
        (self.requests if end.chan is self.c2s else self.responses).append(packet)
        return None

    def receive_packet(self, f, conn, request=None):
        end = conn.buffer_in
        if not isinstance(end, End):
            return NotImplemented
        while not end.chan.items:
            if end.pump is None or not end.pump():
                raise IOError("Unexpected EOF in data stream")
        p = end.chan.take()
        if isinstance(p, td.PacketOSError):
            raise td.RemoteOSError(msg=p.msg, errno=p.errno, strerror=p.strerror)
        if isinstance(p, td.PacketInvalidField):
            getattr(request, p.field)
            raise ValueError(p.error_message)
        return p

    # -- the dispatcher process
    def pump(self):
        """Let the dispatcher consume what was sent."""
        if not self.alive or not self.c2s.items:
            return False
        before = len(self.s2c.items)
        saved = sys.stdin, sys.stdout, sys.argv
        sys.stdin = types.SimpleNamespace(buffer=End(self, self.c2s))
        sys.stdout = types.SimpleNamespace(buffer=End(self, self.s2c), write=lambda s: None, flush=lambda: None)
        sys.argv = ["dispatcher"]
        self.server_runs += 1
        try:
            td._main()
            self.alive = False            # told to exit
            self.server_exit = 0
        except SystemExit as e:
            # end of input: the dispatcher is still alive, waiting for the next request
            self.server_exit = e.code
        except core.Abort:
            raise
        except Exception as e:
            self.alive = False
            self.died = e
        finally:
            sys.stdin, sys.stdout, sys.argv = saved
        return len(self.s2c.items) > before

    def Popen(self, command, *a, **k):
        self.srv_popen = types.SimpleNamespace(args=command, stdin=End(self, self.c2s), stdout=End(self, self.s2c, self.pump), returncode=None,
                                               terminated=False, waited=False)
        p = self.srv_popen

        def poll():
            return None if self.alive else 1

        def wait(*a):
            p.waited = True
            if not p.stdin.closed and self.alive:
                self.pump()
            return 0

        def terminate():
            p.terminated = True
            self.alive = False
        p.poll, p.wait, p.terminate, p.kill = poll, wait, terminate, terminate
        self.popen = p
        self.spawned.append(p)
        return p

    def install(self):
        rt.EXTERNALS[subprocess.Popen] = self.Popen
        if self.ctx.symbolic:
            rt.CONTRACTS[("fora.connectors.tunnel_dispatcher", "Connection.write_packet")] = self.write_packet
            rt.CONTRACTS[("fora.connectors.tunnel_dispatcher", "receive_packet")] = self.receive_packet
        rt.CONTRACTS[("fora.logger", "connection_init")] = lambda f, *a, **k: None
        rt.CONTRACTS[("fora.logger", "connection_failed")] = lambda f, *a, **k: None
        rt.CONTRACTS[("fora.logger", "connection_established")] = lambda f, *a, **k: None


def well_typed(ctx, v, t):
    """The precondition under which the wire contract (C01) sends a field."""
    import typing
    v = force(v)
    tn = getattr(t, "__name__", "")
    if typing.get_origin(t) is typing.Union:
        return v is None or well_typed(ctx, v, [a for a in typing.get_args(t) if a is not type(None)][0])
    if typing.get_origin(t) is list:
        if not isinstance(v, list):
            return False
        if hasattr(v, "sym_len"):
            return True
        return all(well_typed(ctx, x, typing.get_args(t)[0]) for x in v)
    if tn in W.RANGE:
        if not isinstance(v, int):
            return False
        lo, hi = W.RANGE[tn]
        return bool(sym.conj(v >= lo, v <= hi))
    if t is bool:
        return True
    return isinstance(v, t)


class Args(argparse.Namespace):
    pass


def setup(ctx, faults=True):
    """A real connector talking to the real dispatcher on a ghost machine."""
    W.install(ctx)
    td.is_server = False
    fora.args = Args(debug=False, dry=False, verbose=0, changes=False, diff=False, no_color=True)
    srv = Server(ctx, faults)
    srv.install()
    link = Link(ctx, srv)
    link.install()
    host = types.SimpleNamespace(name="h", url="local:h")
    conn = _Tunnel("local:h", host)
    return srv, link, conn


class _Tunnel(tc.TunnelConnector):
    def command(self):
        return ["dispatcher"]


def in_sync(ctx, link, conn):
    """The dispatcher is alive and the next request gets its own answer."""
    ctx.ensure("the dispatcher survives the request", link.died is None and link.alive, link.died)
    ctx.ensure("no program can read or write the streams of the connection", all(not e.shares for e in link.srv.execs), [e.shares for e in link.srv.execs])
    if link.died is not None or not link.alive:
        return
    ctx.ensure("no response is left over", len(link.s2c.items) == 0 and not link.popen.stdout.buf, link.s2c.items)
    o = ctx.outcome(_ping, conn)
    ctx.ensure("the next request is answered by its own response", o.returned and type(o.value) is td.PacketAck, o)


def _ping(conn):
    rt.callm(conn.conn, "write_packet", td.PacketCheckAlive())
    return rt.call(td.receive_packet, conn.conn)
