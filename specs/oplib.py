"""Ghost machine for the operations: assumed contracts of the connector interface (whose remote half is
what C02-C04 prove) and of the system tools the operations start."""
import argparse
import copy
import hashlib
import os
import shutil
import subprocess
import sys
import types

import z3

from pyvc import core, rt, sym
from pyvc.core import Outcome, Unsupported
from pyvc.sym import Atom, SymBool, SymBytes, SymInt, SymStr, force

import fora
import fora.connection as fconn
import fora.types as ftypes
from fora.connectors.connector import CompletedRemoteCommand, Connector, GroupEntry, StatResult, UserEntry
from fora.connectors.tunnel_dispatcher import RemoteOSError
from fora.inventory_wrapper import InventoryWrapper
from fora.remote_settings import RemoteSettings
from fora.operations import api

DB = {"root": "root", "alice": "alice", "0": "root", "1000": "alice"}
GDB = {"root": "root", "users": "users", "0": "root", "100": "users"}
OWNERS = ["root", "alice", "0", "1000", "ghost"]
GROUPS = ["root", "users", "0", "100", "ghost"]
FILEMODES = ["600", "644", "0644", "4755", "2755", "0", "0o755", "17777", "9", "x"]
MODES = [0o600, 0o644, 0o755, 0o2755, 0o4755, 0o1777, 0]


def INT8(z):
    return sym.ufn("int_of_str_8", sym.S, sym.I)(z)


def octal(ctx, s):
    """Value an octal mode text denotes, None when it denotes none (spec function)."""
    s = force(s)
    try:
        v = rt._int(s, 8) if ctx.symbolic else int(s, 8)
    except ValueError:
        return None
    return v if bool(sym.conj(v >= 0, v <= 0o7777)) else None


def know_octal(ctx, *texts):
    """Ground facts about literal octal texts."""
    if not ctx.symbolic:
        return
    for t in texts:
        if isinstance(t, str) and not isinstance(t, sym.Sym):
            try:
                v = int(t, 8)
            except ValueError:
                continue
            ctx.axiom(INT8(sym.sval(t)) == v)
            ctx.axiom(sym.ufn("int_valid_8", sym.S, sym.B)(sym.sval(t)))
            ctx.axiom(sym.OCTSTR(z3.IntVal(v)) == sym.sval(oct(v)[2:]))


def name_facts(ctx, z):
    """Names in the account databases: not empty, no ':', not an option."""
    ctx.axiom(z3.And(z != sym.sval(""), z != sym.sval("None"), z3.Not(z3.PrefixOf(sym.sval("-"), z)), z3.Not(z3.Contains(z, sym.sval(":")))))


class Obj:
    """One file-system object."""
    FIELDS = ("type", "mode", "owner", "group", "content", "target", "touched")

    def __init__(self, **k):
        self.type = None
        self.mode = self.owner = self.group = self.content = self.target = None
        self.touched = 0
        self.__dict__.update(k)

    def copy(self):
        return copy.copy(self)

    def __repr__(self):
        return f"Obj({self.type}, mode={self.mode!r}, owner={self.owner!r}, group={self.group!r}, content={self.content!r}, target={self.target!r}, touched={self.touched})"


def same_obj(a, b, fields=Obj.FIELDS):
    """Condition: two states of an object are the same."""
    if a.type != b.type:
        return False
    if a.type is None:
        return True
    cs = []
    for f in fields:
        if f == "type" or (f == "content" and a.type != "file") or (f == "target" and a.type != "link") or (f == "mode" and a.type == "link"):
            continue
        cs.append(getattr(a, f) == getattr(b, f))
    return sym.conj(*cs) if cs else True


TOOLS = set("""[ apk apt apt-cache apt-get apt-mark aptitude awk bash base64 basename busybox cat cp chgrp chmod chown chpasswd cmp crontab curl cut dash date dd dirname dnf doas dpkg dpkg-query
echo emerge env eix equery false find getent git gpasswd grep groupadd groupdel groupmod groups gzip head hostname hostnamectl id install journalctl kill ln ls md5sum mkdir mktemp mount mv newgrp
nologin openssl pacman paru passwd perl pip pip3 pkill portageq printf ps psql pwd python python3 qlist rc-service rc-update readlink realpath rm rmdir rpm rsync runuser sed service sh sha256sum sha512sum
sort stat su sudo systemctl tar tee test timedatectl timeout touch tr true truncate umount uname useradd userdel usermod vipw wc wget which whoami xargs yay yum zsh zypper""".split())


class Injected(Exception):
    """A value was taken for a command line option."""


class World:
    """The remote machine."""
    TYPES = [None, "file", "dir", "link", "other"]

    def __init__(self, ctx, faults=False):
        self.ctx, self.faults = ctx, faults
        self.entries = []            # (path, Obj)
        self.log = []                # mutating actions
        self.runs = []               # every command
        self.faulted = False         # a remote action was refused or failed
        self.environment = False     # ... without being asked for the impossible
        self.injected = False
        self.me = ("me", "megrp") if not ctx.symbolic else (self.name("me"), self.name("megrp"))
        self.umask_seen = []
        self.extra = {}              # command name -> handler
        self.fresh = 0
        self.types = self.TYPES
        self.hint = {}               # bounded runs: states near the requested one first
        self.calls = 0

    def name(self, n):
        z = z3.String(n)
        name_facts(self.ctx, z)
        return SymStr((Atom(z, ("name",)),))

    # -- faults
    def fault(self, what, make):
        self.calls += 1
        if self.faults and not self.faulted and self.ctx.choice(f"{what} fails?", [False, True]):
            self.faulted = self.environment = True
            raise make()

    def os_fault(self, what):
        self.fault(what, lambda: RemoteOSError(msg="refused", errno=13, strerror="Permission denied"))

    # -- file system
    def at(self, path):
        path = force(path)
        for p, o in self.entries:
            if p is path or bool(p == path):
                return o
        o = self.unknown()
        self.entries.append((path, o))
        return o

    def put(self, path, **k):
        o = Obj(**k)
        self.entries.append((path, o))
        return o

    def unknown(self):
        c = self.ctx
        self.fresh += 1
        n = f"fs{self.fresh}"
        t = c.choice(n + ".type", self.types)
        if t is None:
            return Obj()
        return self.attrs(Obj(type=t), n)

    def attrs(self, o, n):
        c = self.ctx
        near = lambda k, dom: [self.hint[k]] + [x for x in dom if x != self.hint[k]] if not c.symbolic and self.hint.get(k) is not None else dom
        o.mode = c.int(n + ".mode", lo=0, hi=0o7777, dom=near("mode", MODES))
        o.owner = c.str(n + ".owner", dom=near("owner", ["root", "alice", "me", "12345"]))
        o.group = c.str(n + ".group", dom=near("group", ["root", "users", "megrp"]))
        if o.type == "file" and o.content is None:
            o.content = c.bytes(n + ".content", dom=near("content", [b"", b"old\n", b"new\n", b"\xff\n"]))
        if o.type == "link" and o.target is None:
            o.target = c.str(n + ".target", dom=near("target", ["/old", "new", "-n", "\udcff"]))
            c.assume(o.target != "")
        return o

    def snapshot(self):
        w = copy.copy(self)
        w.entries = [(p, o.copy()) for p, o in self.entries]
        w.log = list(self.log)
        w.runs = list(self.runs)
        w.extra = dict(self.extra)
        return w

    def same(self, other, skip=None, fields=Obj.FIELDS):
        """Condition: every object known in both worlds is unchanged (except path `skip`)."""
        cs = []
        known = [(p, o) for p, o in other.entries]
        for p, o in self.entries:
            if skip is not None and (p is skip):
                continue
            q = next((b for (r, b) in known if r is p), None)
            if q is not None:
                cs.append(same_obj(o, q, fields))
        return sym.conj(*cs) if cs else True

    def clear_setid(self, mode, n="chown"):
        """Mode after the kernel dropped set-id bits (which ones depends on the execute bits)."""
        c = self.ctx
        if not c.symbolic:
            m = mode & ~0o4000
            return m & ~0o2000 if m & 0o010 else m
        self.fresh += 1
        r = c.int(f"{n}.mode{self.fresh}", lo=0, hi=0o7777)
        c.assume(SymBool(z3.And(r.z <= sym.lift(mode), r.z % 1024 == sym.lift(mode) % 1024)))
        return r

    # -- commands
    def parse(self, cmd, valued=()):
        """GNU option parsing: options anywhere before `--`."""
        opts, pos, dd, it = {}, [], False, iter([force(x) for x in cmd[1:]])
        for a in it:
            if dd:
                pos.append(a)
            elif isinstance(a, sym.Sym):
                if bool(a.startswith("-")):
                    raise Injected()
                pos.append(a)
            elif a == "--":
                dd = True
            elif a.startswith("-") and a != "-":
                if a in valued:
                    opts[a] = next(it, None)
                elif "=" in a and a.startswith("--"):
                    k, v = a.split("=", 1)
                    opts[k] = v
                else:
                    opts[a] = True
            else:
                pos.append(a)
        return opts, pos

    def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
        command = [force(x) for x in command]
        self.runs.append(types.SimpleNamespace(command=command, user=user, group=group, umask=umask, cwd=cwd, check=check, input=input))
        name = command[0]
        if isinstance(name, sym.Sym):
            raise Unsupported("symbolic command name")
        h = self.extra.get(name) or getattr(self, "cmd_" + name.replace("-", "_"), None)
        if h is None:
            if name not in TOOLS and shutil.which(name) is None:     # no such tool
                raise RemoteOSError(msg=f"No such file or directory: '{name}'", errno=2, strerror="No such file or directory")
            raise Unsupported(f"command {name} has no contract")
        try:
            rc, out = h(command)
        except Injected:
            self.injected = True
            rc, out = 1, b""
        if rc is None:
            raise Unsupported(f"{command}")
        if rc != 0:
            if bool(check):
                self.faulted = True
                raise subprocess.CalledProcessError(rc, command, out, b"failed")
        return CompletedRemoteCommand(stdout=out if bool(capture_output) else None, stderr=b"" if bool(capture_output) else None, returncode=rc)

    def mutate(self, command):
        """Entry of every command that changes the machine: it may also fail."""
        self.log.append(command)
        self.calls += 1
        if self.faults and not self.faulted and self.ctx.choice(f"{command[0]} fails?", [False, True]):
            self.faulted = self.environment = True
            return False
        return True

    @staticmethod
    def only(opts, *allowed):
        for o in opts:
            if o in allowed:
                continue
            if o[:2] != "--" and all("-" + ch in allowed for ch in o[1:]):
                continue
            return False
        return True

    @staticmethod
    def has(opts, *names):
        for o in opts:
            if o in names:
                return True
            if o[:2] != "--" and any(len(n) == 2 and n[1] in o[1:] for n in names):
                return True
        return False

    def cmd_mkdir(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts):
            return None, b""
        if len(pos) != 1:
            return 1, b""
        if not self.mutate(cmd):
            return 1, b""
        o = self.at(pos[0])
        if o.type is not None:
            return 1, b""
        o.type = "dir"
        self.attrs(o, "mkdir")      # umask, set-gid parents and ACLs decide: unknown
        return 0, b""

    def cmd_touch(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts, "--no-dereference", "-h"):
            return None, b""
        if len(pos) != 1:
            return 1, b""
        if not self.mutate(cmd):
            return 1, b""
        o = self.at(pos[0])
        if o.type is None:
            if self.has(opts, "-h", "--no-dereference"):
                return 0, b""
            o.type, o.content = "file", b""
            self.attrs(o, "touch")
        elif o.type == "link" and not self.has(opts, "-h", "--no-dereference"):
            self.log.append("touched the target of a link")
        else:
            o.touched += 1
        return 0, b""

    def mode_arg(self, text):
        """(value, explicit five digit form) of a numeric chmod mode, None when chmod refuses it."""
        text = force(text)
        if not isinstance(text, sym.Sym):
            if not text or any(ch not in "01234567" for ch in text) or int(text, 8) > 0o7777:
                return None
            return int(text, 8), len(text) >= 5
        parts = text.parts
        lead = 0
        if parts and not isinstance(parts[0], Atom):
            if set(parts[0]) - {"0"}:
                raise Unsupported("mode text")
            lead = len(parts[0])
            text = SymStr(parts[1:])
        if len(text.parts) == 1 and isinstance(text.parts[0].tag, tuple) and text.parts[0].tag[0] == "zfill":
            lead = max(lead, text.parts[0].tag[1])
            text = text.parts[0].tag[2]
        v = octal(self.ctx, text)
        if v is None:
            return None
        return v, lead >= 5 or (lead and lead >= 4 and self.ctx.must(text.sym_len() >= 1))

    def cmd_chmod(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts):
            return None, b""
        if len(pos) != 2:
            return 1, b""
        m = self.mode_arg(pos[0])
        if not self.mutate(cmd):
            return 1, b""
        o = self.at(pos[1])
        if o.type is None:
            return 1, b""
        if m is None:       # may be a symbolic mode, or refused
            if o.type != "link" and self.ctx.choice("a symbolic mode?", [False, True]):
                o.mode = self.ctx.int(f"chmod{self.calls}.mode", lo=0, hi=0o7777, dom=MODES)
                return 0, b""
            return 1, b""
        if o.type == "link":
            self.log.append("chmod through a link")
            return 0, b""
        v, full = m
        if o.type == "dir" and not full:
            v = self.keep_setid(v, o.mode)
        o.mode = v
        return 0, b""

    def keep_setid(self, v, old):
        """GNU chmod keeps the set-id bits of a directory unless the numeric mode has five digits."""
        c = self.ctx
        if not c.symbolic:
            return v | (old & 0o6000)
        v, old = sym.lift(v), sym.lift(old)
        bit = lambda x, b: (x / b) % 2 == 1
        z = v + z3.If(z3.And(bit(old, 0o4000), z3.Not(bit(v, 0o4000))), 0o4000, 0) + z3.If(z3.And(bit(old, 0o2000), z3.Not(bit(v, 0o2000))), 0o2000, 0)
        return SymInt(z)

    def split_owner(self, text):
        text = force(text)
        if not isinstance(text, sym.Sym):
            o, _, g = text.partition(":")
            return o, (g if _ else None)
        left, right, seen = [], [], False
        for p in text.parts:
            if not isinstance(p, Atom) and ":" in p:
                if seen or p.count(":") != 1:
                    raise Unsupported("chown argument")
                a, b = p.split(":")
                left.append(a)
                right.append(b)
                seen = True
            else:
                (right if seen else left).append(p)
        return sym.simp(SymStr(tuple(left))), (sym.simp(SymStr(tuple(right))) if seen else None)

    def cmd_chown(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts, "--no-dereference", "-h"):
            return None, b""
        if len(pos) != 2:
            return 1, b""
        owner, group = self.split_owner(pos[0])
        if not self.mutate(cmd):
            return 1, b""
        if bool(owner == "None") or (group is not None and bool(group == "None")):
            return 1, b""
        o = self.at(pos[1])
        if o.type is None:
            return 1, b""
        if o.type == "link" and not self.has(opts, "-h", "--no-dereference"):
            self.log.append("chown through a link")
            return 0, b""
        if bool(owner != ""):
            o.owner = owner
        if group is not None and bool(group != ""):
            o.group = group
        elif group is not None and bool(owner != ""):      # `owner:` is the login group of the owner
            o.group = self.ctx.str(f"login{self.calls}.group", dom=["root", "users", "megrp"])
        if o.type in ("file", "other"):
            o.mode = self.clear_setid(o.mode)
        return 0, b""

    def cmd_rm(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts, "-r", "-f", "-R"):
            return None, b""
        if len(pos) != 1:
            return 1, b""
        if not self.mutate(cmd):
            return 1, b""
        o = self.at(pos[0])
        if o.type is None:
            return (0 if self.has(opts, "-f") else 1), b""
        if o.type == "dir" and not self.has(opts, "-r", "-R"):
            return 1, b""
        o.type = None
        return 0, b""

    def cmd_ln(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts, "-s", "-f", "-n", "-T", "--no-dereference", "--no-target-directory", "--symbolic", "--force"):
            return None, b""
        if len(pos) != 2:
            return 1, b""
        if not self.mutate(cmd):
            return 1, b""
        if not self.has(opts, "-s", "--symbolic"):
            return 1, b""
        target, path = pos
        o = self.at(path)
        if o.type == "link" and not self.has(opts, "-n", "--no-dereference", "-T", "--no-target-directory") and \
                self.ctx.choice("the existing link points to a directory?", [False, True]):
            self.log.append("created a link inside the directory the link points to")
            return 0, b""
        if o.type == "dir":
            self.log.append("created a link inside the directory")
            return (1 if self.has(opts, "-T", "--no-target-directory") else 0), b""
        if o.type is not None and not self.has(opts, "-f", "--force"):
            return 1, b""
        o.type, o.target = "link", target
        self.attrs(o, "ln")
        return 0, b""

    def cmd_readlink(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts, "-n", "--no-newline"):
            return None, b""
        if len(pos) != 1:
            return 1, b""
        o = self.at(pos[0])
        if o.type != "link":
            return 1, b""
        out = fsencode(self.ctx, o.target)
        return 0, (out if self.has(opts, "-n", "--no-newline") else out + b"\n")

    def cmd_cp(self, cmd):
        opts, pos = self.parse(cmd)
        if not self.only(opts, "-a", "--archive", "-T", "--no-target-directory"):
            return None, b""
        if len(pos) != 2:
            return 1, b""
        if not self.mutate(cmd):
            return 1, b""
        s, d = self.at(pos[0]), self.at(pos[1])
        if s.type is None:
            return 1, b""
        if d.type == "dir":
            self.log.append("copied into a directory")
            return 0, b""
        if d.type == "link" and s.type != "link":
            self.log.append("copied through a link")
            return 0, b""
        if d.type == "link" and not self.has(opts, "-T", "--no-target-directory") and self.ctx.choice("the existing link points to a directory?", [False, True]):
            self.log.append("copied into the directory the link points to")
            return 0, b""
        if s is not d:
            d.__dict__.update(s.copy().__dict__)
        return 0, b""


def fsencode(ctx, s):
    s = force(s)
    if not isinstance(s, sym.Sym):
        return s.encode("utf-8", "surrogateescape")
    z = sym.ufn("fsencode", sym.S, sym.S)(s.z)
    ctx.axiom((z == sym.sval("")) == (s.z == sym.sval("")))
    ctx.axiom(sym.ufn("fsencode_inv", sym.S, sym.S)(z) == s.z)
    r = SymBytes((Atom(z, ("fsenc", s)),))
    ctx.axiom((sym.lift(r.sym_len()) == 0) == (z == sym.sval("")))
    return r


class Ghost(Connector):
    """The connector interface, by its contract."""

    def __init__(self, url, host, world):
        super().__init__(url, host)
        self.w = world
        self.opened = self.closed = 0

    def open(self):
        self.opened += 1

    def close(self):
        self.closed += 1

    def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
        w = self.w
        w.os_fault("run")
        return w.run(command, input, capture_output, check, user, group, umask, cwd)

    def _resolve(self, kind, q, db, me):
        w, ctx = self.w, self.w.ctx
        q = force(q)
        if q is None:
            return me
        if not ctx.symbolic:
            if q == me:
                return me
            if q not in db:
                raise ValueError(f"The {kind} '{q}' does not exist")
            return db[q]
        if q is me:
            return me
        if isinstance(q, SymStr) and isinstance(q.tag, tuple) and q.tag[0] == "canon" and q.tag[1] == kind:
            return q
        if not bool(ctx.fn(kind + "_exists", "bool", q)):
            raise ValueError(f"The {kind} does not exist")
        n = ctx.fn(kind + "_name", "str", q)
        r = SymStr((Atom(n.z, ("name",)),), tag=("canon", kind))
        name_facts(ctx, n.z)
        return r

    def resolve_user(self, user):
        self.w.os_fault("resolve_user")
        return self._resolve("user", user, DB, self.w.me[0])

    def resolve_group(self, group):
        self.w.os_fault("resolve_group")
        return self._resolve("group", group, GDB, self.w.me[1])

    def stat(self, path, follow_links=False, sha512sum=False):
        w = self.w
        w.os_fault("stat")
        if bool(follow_links):
            raise Unsupported("stat following links")
        o = w.at(path)
        if o.type is None:
            return None
        return StatResult(type=o.type if o.type != "other" else "fifo", mode=o.mode, owner=o.owner, group=o.group, size=0, mtime=0, ctime=0,
                          sha512sum=sha512(w.ctx, o.content) if bool(sha512sum) and o.type == "file" else None)

    def upload(self, file, content, mode=None, owner=None, group=None):
        w, ctx = self.w, self.w.ctx
        file, content, mode, owner, group = map(force, (file, content, mode, owner, group))
        v = None
        if mode is not None:
            v = octal(ctx, mode)
            if v is None:
                raise ValueError("mode")
        u = g = None
        if owner is not None:
            u = self._resolve("user", owner, DB, w.me[0])
        if group is not None:
            g = self._resolve("group", group, GDB, w.me[1])
        if not isinstance(content, bytes):
            raise TypeError("content")
        w.log.append(["upload", file])
        w.os_fault("upload")
        o = w.at(file)
        if o.type == "dir":
            w.faulted = True
            raise RemoteOSError(msg="is a directory", errno=21, strerror="Is a directory")
        if o.type == "link":
            w.log.append("upload through a link")
            return
        new = o.type is None
        o.type = "file" if o.type is None else o.type
        o.content = content
        if new:
            w.attrs(o, "upload")
        elif bool(mode is None):
            o.mode = w.clear_setid(o.mode, "write")
        if u is not None:
            o.owner = u
            if g is None:
                o.group = ctx.str("primary group", dom=["users"])
        if g is not None:
            o.group = g
            if u is None:
                o.owner = "root"
        if v is not None:
            o.mode = v

    def download(self, file):
        w = self.w
        w.os_fault("download")
        o = w.at(file)
        if o.type is None:
            raise ValueError("file not found")
        if o.type == "dir":
            w.faulted = True
            raise RemoteOSError(msg="is a directory", errno=21, strerror="Is a directory")
        if o.type != "file":
            raise Unsupported("download of a special file")
        return o.content

    def query_user(self, user, query_password_hash=False):
        return self.w.query_user(user, query_password_hash)

    def query_group(self, group):
        return self.w.query_group(group)

    def getenv(self, key):
        return None


def sha512(ctx, content):
    content = force(content)
    if not ctx.symbolic:
        return hashlib.sha512(content).digest()
    z = sym.lift(content)
    h = sym.ufn("sha512", sym.S, sym.S)(z)
    ctx.axiom(sym.ufn("sha512_inv", sym.S, sym.S)(h) == z)       # no collisions
    return SymBytes((Atom(h),))


class _Sha:
    def __init__(self, ctx, data):
        self.ctx, self.data = ctx, data

    def digest(self):
        return sha512(self.ctx, self.data)


class Inv(InventoryWrapper):
    pass


class Args(argparse.Namespace):
    pass


def setup(ctx, world, dry=False, diff=False, settings=None):
    """The real operation stack on a ghost machine: host, connection, script."""
    show = {} if ctx.symbolic else dict(verbose=ctx.choice("--verbose", [0, 1, 99]), changes=ctx.choice("--changes", [True, False]), no_color=ctx.choice("--no-color", [True, False]),
                                        debug=ctx.choice("--debug", [False, True]))
    fora.args = Args(**{**dict(debug=False, dry=dry, verbose=0, changes=True, diff=diff, no_color=True), **show})
    if not ctx.symbolic and not diff:
        fora.args.diff = ctx.choice("--diff", [False, True])
    inv = InventoryWrapper()
    inv._is_initialized = True
    if settings is not None:
        inv.module = types.SimpleNamespace(base_remote_settings=lambda: settings)
    fora.inventory = inv
    host = ftypes.HostWrapper(inv, "h", "ghost:h", connector=lambda url, h: Ghost(url, h, world))
    fora.host = host
    fora.script = ftypes.ScriptWrapper("s")
    conn = fconn.Connection(host)
    f, world.faults = world.faults, False
    rt.callm(conn, "__enter__")
    world.faults = f
    b = conn.base_settings
    know_octal(ctx, b.file_mode, b.dir_mode, b.umask)
    if b.cwd:
        world.put(b.cwd, type="dir", mode=0o1777, owner="root", group="root")
    rt.EXTERNALS[shutil.get_terminal_size] = lambda *a, **k: os.terminal_size((80, 24))
    if ctx.symbolic:
        rt.EXTERNALS[hashlib.sha512] = lambda data=b"": _Sha(ctx, force(data))
        for n in ("print_operation", "print_operation_early", "print_operation_title"):
            rt.CONTRACTS[("fora.logger", n)] = lambda f, *a, **k: None
        rt.CONTRACTS[("fora.utils", "print_process_error")] = lambda f, *a, **k: None
    return conn


def rerun(world, dry=False):
    """Same session, another run."""
    fora.args.dry = dry


class Result:
    """Outcome of one operation: ok / failed / raised."""

    def __init__(self, o):
        self.o = o
        v = o.value
        self.raised = o.exc is not None
        self.ok = o.exc is None and isinstance(v, api.OperationResult) and bool(v.success)
        self.value = v

    def __repr__(self):
        return repr(self.o) + (f" {self.o.exc}" if self.raised and not rt._opaque_str(self.o.exc) else "")


def operate(ctx, fn, *a, **k):
    return Result(ctx.outcome(rt.call, fn, *a, **k))
