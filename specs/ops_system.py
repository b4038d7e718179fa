"""Scenarios of the account, package and service operations."""
import os
import shutil
import subprocess
import tempfile

import z3

from pyvc import rt, sym
from pyvc.core import Unsupported
from pyvc.sym import force
from specs import oplib as O
from specs.opcheck import Scenario
from fora.connectors.connector import GroupEntry, UserEntry

import fora.operations.apt as apt
import fora.operations.pacman as pacman
import fora.operations.portage as portage
import fora.operations.system as system
import fora.operations.systemd as systemd

GROUPNAMES = {"users": "users", "video": "video", "wheel": "wheel", "100": "users", "39": "video"}
GIDS = {"users": 100, "video": 39, "wheel": 10}


class Rec:
    """An account."""
    def __init__(self, **k):
        self.__dict__.update(k)

    def copy(self):
        r = Rec(**self.__dict__)
        if isinstance(getattr(r, "groups", None), list):
            r.groups = list(r.groups)
        return r

    def __repr__(self):
        return f"Rec({self.__dict__})"


def same_set(a, b):
    """Condition: the two lists hold the same elements (spec function)."""
    a, b = [force(x) for x in a], [force(x) for x in b]
    cs = [sym.disj(*[x == y for y in b]) if b else False for x in a] + [sym.disj(*[x == y for x in a]) if a else False for y in b]
    return sym.conj(*cs) if cs else True


def plain_name(ctx, s):
    """Names as the account tools accept them: no separators, not an option, not a number."""
    if ctx.symbolic:
        z = s.z
        O.name_facts(ctx, z)
        ctx.axiom(z3.And(z3.Not(z3.Contains(z, sym.sval(","))), z3.Not(sym.ufn("int_valid_10", sym.S, sym.B)(z))))
    else:
        ctx.assume(s != "" and "," not in s and ":" not in s and not s.isdigit())
    return s


class Accounts:
    """Contracts of useradd, usermod, userdel, groupadd, groupmod, groupdel and the account queries."""

    def __init__(self, w, user=None, group=None):
        self.w, self.ctx, self.user, self.group = w, w.ctx, user, group
        self.urec = None        # record of the managed user
        self.grec = None
        for n in ("useradd", "usermod", "userdel", "groupadd", "groupmod", "groupdel"):
            w.extra[n] = getattr(self, n)
        w.query_user, w.query_group = self.query_user, self.query_group

    # -- databases
    def canon_group(self, q):
        """Name of an existing group given by name or number; None when there is none."""
        c = self.ctx
        q = force(q)
        if not c.symbolic:
            return GROUPNAMES.get(q)
        if isinstance(q, sym.SymStr) and isinstance(q.tag, tuple) and q.tag[0] == "group":
            return q
        if not isinstance(q, sym.Sym):
            return None if q in ("", "None") else q
        n = c.fn("group_name", "str", q)
        return plain_name(c, sym.SymStr((sym.Atom(n.z, ("name",)),), tag=("group",)))

    def new_group(self, n, dom=None):
        c = self.ctx
        s = c.str(n, dom=dom or ["users", "video", "wheel"])
        if not c.symbolic:
            c.assume(GROUPNAMES.get(s) == s)
            return s
        plain_name(c, s)
        c.axiom(sym.ufn("group_name", sym.S, sym.S)(s.z) == s.z)
        return sym.SymStr((sym.Atom(s.z, ("name",)),), tag=("group",))

    def query_user(self, user, pw):
        self.w.os_fault("query_user")
        if not bool(force(user) == self.user):
            raise Unsupported("query of another user")
        r = self.urec
        if r is None:
            raise ValueError("The user does not exist")
        return UserEntry(name=self.user, uid=r.uid, group=r.group, gid=0, groups=list(r.groups), password_hash=r.password_hash if bool(pw) else None,
                         gecos=r.comment, home=r.home, shell=r.shell)

    def query_group(self, group):
        self.w.os_fault("query_group")
        if self.group is not None:
            if not bool(force(group) == self.group):
                raise Unsupported("query of another group")
            if self.grec is None:
                raise ValueError("The group does not exist")
            return GroupEntry(name=self.group, gid=self.grec.gid, members=[])
        n = self.canon_group(group)
        if n is None:
            raise ValueError("The group does not exist")
        return GroupEntry(name=n, gid=self.ctx.fn("gid", "int", n) if self.ctx.symbolic else GIDS[n], members=[])

    # -- option parsing (getopt_long with values)
    VALUED = {"--uid": "uid", "-u": "uid", "--gid": "group", "-g": "group", "--groups": "groups", "-G": "groups", "--comment": "comment", "-c": "comment",
              "--home-dir": "home", "--home": "home", "-d": "home", "--shell": "shell", "-s": "shell", "--password": "password_hash", "-p": "password_hash"}
    FLAGS = {"--system", "-r", "--user-group", "-U", "--no-user-group", "-N", "--no-create-home", "-M", "--append", "-a"}

    def parse(self, cmd):
        opts, flags, pos, it, dd = {}, set(), [], iter([force(x) for x in cmd[1:]]), False
        for a in it:
            if dd or isinstance(a, sym.Sym):
                if not dd and bool(a.startswith("-")):
                    raise O.Injected()
                pos.append(a)
            elif a == "--":
                dd = True
            elif a in self.VALUED:
                v = next(it, None)
                if v is None:
                    return None
                opts[self.VALUED[a]] = v
                flags |= {a} & {"--home", "--home-dir"}
            elif a in self.FLAGS:
                flags.add(a)
            elif a.startswith("--") and "=" in a and a.split("=", 1)[0] in self.VALUED:
                k, v = a.split("=", 1)
                opts[self.VALUED[k]] = v
            elif a.startswith("-") and a != "-":
                if any(k.startswith(a.split("=", 1)[0]) for k in self.REAL) or not a.startswith("--") and any(k.startswith(a[:2]) and len(k) == 2 for k in self.REAL):
                    raise Unsupported(f"option {a}")
                return None
            else:
                pos.append(a)
        return opts, flags, pos

    # every option shadow-utils has; anything else is a usage error
    REAL = """--append -a --add --badname --badnames --base-dir -b --btrfs-subvolume-home --comment -c --create-home -m --defaults -D --del-subids-for-caller --del-subgids --del-subuids --add-subgids --add-subuids
        -v -w -V -W --expiredate -e --extrausers --force -f --gid -g --groups -G --help -h --home -d --home-dir --inactive --key -K --lock -L --login -l --move-home --new-name -n --no-create-home -M
        --no-log-init --no-user-group -N --non-unique -o --password -p --prefix -P --remove -r --remove-home --root -R --selinux-range --selinux-user -Z --shell -s --skel -k --system --uid -u --unlock -U
        --user-group --users --chroot""".split()

    def values(self, opts):
        """Field values the options denote; None when the tool refuses them."""
        r = {}
        for k, v in opts.items():
            if k == "uid":
                try:
                    v = rt._int(v) if self.ctx.symbolic else int(v)
                except ValueError:
                    return None
            elif k == "group":
                v = self.canon_group(v)
            elif k == "groups":
                parts = [x for x in (v.split(",") if not isinstance(v, str) or v else [])]
                out = []
                for x in parts:
                    g = self.canon_group(x)
                    if g is None:
                        return None
                    if not any(bool(g == y) for y in out):
                        out.append(g)
                v = out
            elif not self.ctx.symbolic and (":" in v or "\n" in v):
                return None
            if v is None:
                return None
            r[k] = v
        return r

    def useradd(self, cmd):
        p = self.parse(cmd)
        if p is None:
            return 2, b""
        opts, flags, pos = p
        if len(pos) != 1 or flags & {"--append", "-a", "--home"}:
            return 2, b""
        if not bool(pos[0] == self.user):
            self.w.log.append("another user")
            return 0, b""
        if not self.w.mutate(cmd):
            return 1, b""
        v = self.values(opts)
        if v is None or self.urec is not None:
            return 1, b""
        ug, nug = bool(flags & {"--user-group", "-U"}), bool(flags & {"--no-user-group", "-N"})
        if ug and (nug or "group" in v):
            return 2, b""
        if not flags & {"--no-create-home", "-M"}:
            self.w.log.append("created a home directory")
        c = self.ctx
        r = Rec(uid=c.int("assigned uid", lo=1, hi=65533), group=self.new_group("own group") if not ug else self.user, groups=[], comment="", home=c.str("default home"),
                shell=c.str("default shell"), password_hash="!", system=bool(flags & {"--system", "-r"}))
        r.__dict__.update(v)
        self.urec = r
        return 0, b""

    def usermod(self, cmd):
        p = self.parse(cmd)
        if p is None:
            return 2, b""
        opts, flags, pos = p
        if len(pos) != 1 or flags - {"--append", "-a", "--home"}:
            return 2, b""
        if not bool(pos[0] == self.user):
            self.w.log.append("another user")
            return 0, b""
        if not self.w.mutate(cmd):
            return 1, b""
        v = self.values(opts)
        if v is None or self.urec is None:
            return 1, b""
        if flags - {"--home"} and "groups" in v:
            v["groups"] = self.urec.groups + [g for g in v["groups"] if not any(bool(g == x) for x in self.urec.groups)]
        self.urec.__dict__.update(v)
        return 0, b""

    def userdel(self, cmd):
        p = self.parse(cmd)
        if p is None or p[0] or p[1] or len(p[2]) != 1:
            return 2, b""
        if not bool(p[2][0] == self.user):
            self.w.log.append("another user")
            return 0, b""
        if not self.w.mutate(cmd):
            return 1, b""
        if self.urec is None:
            return 6, b""
        self.urec = None
        return 0, b""

    def gid_of(self, opts):
        v = opts.get("group")
        if v is None:
            return None
        try:
            return rt._int(v) if self.ctx.symbolic else int(v)
        except ValueError:
            return -1

    def groupadd(self, cmd):
        p = self.parse(cmd)
        if p is None or set(p[0]) - {"group"} or p[1] - {"--system", "-r"} or len(p[2]) != 1:
            return 2, b""
        if not bool(p[2][0] == self.group):
            self.w.log.append("another group")
            return 0, b""
        if not self.w.mutate(cmd):
            return 1, b""
        if self.grec is not None:
            return 9, b""
        g = self.gid_of(p[0])
        self.grec = Rec(gid=g if g is not None else self.ctx.int("assigned gid", lo=1, hi=65533), system=bool(p[1]))
        return 0, b""

    def groupmod(self, cmd):
        p = self.parse(cmd)
        if p is None or set(p[0]) - {"group"} or p[1] or len(p[2]) != 1:
            return 2, b""
        if not bool(p[2][0] == self.group):
            self.w.log.append("another group")
            return 0, b""
        if not self.w.mutate(cmd):
            return 1, b""
        if self.grec is None:
            return 6, b""
        g = self.gid_of(p[0])
        if g is not None:
            self.grec.gid = g
        return 0, b""

    def groupdel(self, cmd):
        p = self.parse(cmd)
        if p is None or p[0] or p[1] or len(p[2]) != 1:
            return 2, b""
        if not bool(p[2][0] == self.group):
            self.w.log.append("another group")
            return 0, b""
        if not self.w.mutate(cmd):
            return 1, b""
        if self.grec is None:
            return 6, b""
        self.grec = None
        return 0, b""


ACC = ["user and group names are ones the account tools accept (no separators, not a number, not an option); groups a user is to be in exist; comments, homes and shells contain no ':' or line feed; homes and shells are not empty"]
FIELDS = ("uid", "group", "groups", "comment", "home", "shell", "password_hash")


class UserBase(Scenario):
    functions = ["fora.operations.system.user"]
    fn = staticmethod(system.user)
    assumes = ACC
    covers_converge = ["success", "no change"]
    free_fields = FIELDS
    refuses = False
    present_only = None
    seconds = 200

    def args(self):
        c = self.ctx
        self.user = plain_name(c, c.str("user", dom=["bob", "-x", "b b"]))
        self.acc = Accounts(self.w, user=self.user)
        k = self.kw = {}
        self.present = k["present"] = c.bool("present") if self.present_only is None else self.present_only
        ff = self.free_fields
        self.req = r = {}
        if "uid" in ff:
            r["uid"] = c.opt("uid", lambda: c.int("uid", lo=0, hi=65533, dom=[0, 5, 1000]))
        if "group" in ff:
            def mk():
                g = c.str("group", dom=["users", "100", "wheel"])
                if c.symbolic:
                    O.name_facts(c, g.z)
                else:
                    c.assume(g in GROUPNAMES)
                return g
            r["group"] = c.opt("group", mk)
        if "groups" in ff:
            n = c.choice("#groups", [None, 0, 1, 2])
            r["groups"] = None if n is None else [self.acc.new_group(f"groups{i}") for i in range(n)]
            k["append_groups"] = self.append = c.bool("append_groups")
        else:
            self.append = False
        texts = {"comment": ["", "Bob B", "-c"], "home": ["/home/bob", "/dev/null", "-d"], "shell": ["/bin/sh", "/sbin/nologin"], "password_hash": ["!", "", "$6$x"]}
        for n, dom in texts.items():
            if n in ff:
                r[n] = c.opt(n, lambda: c.str(n, dom=dom))
        for n in texts:
            if not c.symbolic and r.get(n):
                c.assume(":" not in r[n] and "\n" not in r[n])
        for n in ("home", "shell"):
            if force(r.get(n)) is not None:
                c.assume(r[n] != "")
        self.system = k["system"] = c.choice("system", [False, True]) if "uid" in ff else False
        k.update(r)
        if self.free and "groups" in ff and c.choice("a text instead of a list?", [False, True]):
            k["groups"] = "video"
        self.req = {n: r.get(n) for n in FIELDS}
        self.pos = [self.user]

    def prepare(self):
        c, a = self.ctx, self.acc
        if not c.choice("user exists?", [True, False]):
            return
        near = lambda n, dom: [self.req[n]] + [x for x in dom if x != self.req[n]] if not c.symbolic and self.req[n] is not None and n != "group" else dom
        ng = c.choice("#current groups", [0, 1, 2]) if "groups" in self.free_fields else 1
        gs = [a.new_group(f"cur groups{i}") for i in range(ng)]
        if ng == 2:
            c.assume(gs[0] != gs[1])
        a.urec = Rec(uid=c.int("cur uid", lo=0, hi=65533, dom=near("uid", [0, 5, 1000])), group=a.new_group("cur group"), groups=gs,
                     comment=c.str("cur comment", dom=near("comment", ["", "Bob B"])), home=c.str("cur home", dom=near("home", ["/home/bob", "/dev/null"])),
                     shell=c.str("cur shell", dom=near("shell", ["/bin/sh", "/sbin/nologin"])), password_hash=c.str("cur hash", dom=near("password_hash", ["!", "", "$6$x"])), system=False)

    def valid(self):
        return not isinstance(self.kw.get("groups"), str)

    def observe(self):
        return self.acc.urec.copy() if self.acc.urec is not None else None

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        return sym.conj(*[same_set(a.groups, b.groups) if f == "groups" else getattr(a, f) == getattr(b, f) for f in FIELDS])

    def want(self, before):
        """Requested value per field, by the documentation; absent: any."""
        d = {}
        for f in FIELDS:
            v = force(self.req[f])
            if f == "group" and v is not None:
                v = self.acc.canon_group(v)
            if f == "groups" and v is not None and bool(self.append):
                v = v + (before.groups if before is not None else [])
            if v is None and before is not None:
                v = getattr(before, f)
            if v is None:
                v = {"groups": [], "comment": "", "home": "/dev/null", "shell": "/sbin/nologin", "password_hash": "!", "group": self.user}.get(f)
            if v is not None:
                d[f] = v
        return d

    def matches(self, rec, d):
        return sym.conj(*[same_set(rec.groups, v) if f == "groups" else getattr(rec, f) == v for f, v in d.items()])

    def desired(self, before, after):
        if not bool(self.present):
            return after is None
        if after is None:
            return False
        return sym.conj(self.matches(after, self.want(before)), before is not None or after.system == self.system)

    def steady(self, before):
        if not bool(self.present):
            return before is None
        return before is not None and self.matches(before, self.want(before))

    def describes(self, st, d, before):
        """Reported None: the tool's choice (documented)."""
        if st is None:
            return d.get("exists") is False and sym.conj(*[d.get(f) is None or (f == "groups" and d[f] == []) for f in FIELDS])
        cs = [d.get("exists") is True]
        for f in FIELDS:
            v = d.get(f)
            if v is None:
                cs.append(before is None and self.final)
            elif f == "groups":
                cs += [same_set(v, st.groups), len(v) == len(st.groups)]
            else:
                cs.append(v == getattr(st, f))
        return sym.conj(*cs)

    final = True


class UserIds(UserBase):
    name, free_fields = "user (ids)", ("uid", "group")


class UserGroups(UserBase):
    name, free_fields = "user (groups)", ("groups",)
    refuses = True


class UserTexts(UserBase):
    name, free_fields = "user (comment and password)", ("comment", "password_hash")


class UserPaths(UserBase):
    name, free_fields = "user (home and shell)", ("home", "shell")


class User(UserBase):
    name, prove, samples = "user", False, 4000


class Group(Scenario):
    name = "group"
    refuses = False
    functions = ["fora.operations.system.group"]
    fn = staticmethod(system.group)
    assumes = ACC[:1]
    covers_converge = ["success", "no change"]

    def args(self):
        c = self.ctx
        self.group = plain_name(c, c.str("group", dom=["staff", "-x"]))
        self.acc = Accounts(self.w, group=self.group)
        self.present = c.bool("present")
        self.gid = c.opt("gid", lambda: c.int("gid", lo=0, hi=65533, dom=[0, 5, 1000]))
        self.system = c.choice("system", [False, True])
        self.kw = {"present": self.present, "gid": self.gid, "system": self.system}
        self.pos = [self.group]

    def prepare(self):
        c = self.ctx
        if c.choice("group exists?", [True, False]):
            self.acc.grec = Rec(gid=c.int("cur gid", lo=0, hi=65533, dom=[0, 5, 1000]), system=False)

    def observe(self):
        return self.acc.grec.copy() if self.acc.grec is not None else None

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        return a.gid == b.gid

    def desired(self, before, after):
        if not bool(self.present):
            return after is None
        if after is None:
            return False
        return sym.conj(after.gid == self.gid if force(self.gid) is not None else (before is None or after.gid == before.gid), before is not None or after.system == self.system)

    def steady(self, before):
        if not bool(self.present):
            return before is None
        return before is not None and (True if force(self.gid) is None else before.gid == self.gid)

    def describes(self, st, d, before):
        if st is None:
            return d.get("exists") is False and d.get("gid") is None
        return sym.conj(d.get("exists") is True, d["gid"] == st.gid if d.get("gid") is not None else before is None)


# -- packages -----------------------------------------------------------------
class Packages:
    """Contracts of pacman, dpkg-query, apt-get and emerge on the packages a request names."""

    def __init__(self, w, names):
        self.w, self.ctx = w, w.ctx
        self.pk = []                    # (name, installed), one entry per distinct name
        self.used = []                  # option lists of installing and removing commands
        for n in names:
            self.entry(n, ask=True)
        for n in ("pacman", "dpkg-query", "apt-get", "emerge"):
            w.extra[n] = getattr(self, n.replace("-", "_"))

    def entry(self, name, ask=False):
        for e in self.pk:
            if e[0] is name or bool(e[0] == name):
                return e
        if not ask:
            self.w.log.append("another package")
            return [name, False]
        e = [name, self.ctx.choice("installed?", [True, False])]
        self.pk.append(e)
        return e

    def copy(self):
        return [tuple(e) for e in self.pk]

    def split(self, cmd, valued=()):
        opts, pos, dd, it = [], [], False, iter([force(x) for x in cmd[1:]])
        for a in it:
            if dd:
                pos.append(a)
            elif isinstance(a, sym.Sym):
                if bool(a.startswith("-")):
                    raise O.Injected()
                pos.append(a)
            elif a == "--":
                dd = True
            elif a in valued:
                opts.append(a + "=" + next(it, ""))
            elif a.startswith("-"):
                opts.append(a)
            else:
                pos.append(a)
        return opts, pos

    def apply(self, cmd, opts, names, installed):
        self.used.append((installed, opts))
        if not self.w.mutate(cmd):
            return 1, b""
        for n in names:
            self.entry(n)[1] = installed
        return 0, b""

    def pacman(self, cmd):
        opts, pos = self.split(cmd, ("--color",))
        op = [o for o in opts if o[:2] in ("-Q", "-S", "-R")]
        if len(op) != 1 or not pos:
            return None, b""
        if op[0][1] == "Q":
            return (0 if all(self.entry(n)[1] for n in pos) else 1), b"x /usr/bin/x\n"
        if "--noconfirm" not in opts:
            return 1, b""
        if op[0][1] == "S" and set(op[0][2:]) <= set(""):
            return self.apply(cmd, opts, pos, True)
        if op[0][1] == "R" and set(op[0][2:]) <= set("ns"):
            if not all(self.entry(n)[1] for n in pos):
                return 1, b""
            return self.apply(cmd, opts, pos, False)
        return None, b""

    def dpkg_query(self, cmd):
        opts, pos = self.split(cmd)
        if not set(opts) <= {"--show", "-W", "--showformat=${Status}", "-f=${Status}"} or len(pos) != 1 or len(opts) != 2:
            return None, b""
        if self.entry(pos[0])[1]:
            return 0, b"install ok installed"
        if self.ctx.choice("configuration left behind?", [False, True]):
            return 0, b"deinstall ok config-files"
        return 1, b""

    def apt_get(self, cmd):
        opts, pos = self.split(cmd)
        if not pos or isinstance(pos[0], sym.Sym):
            return None, b""
        if not set(opts) & {"-y", "--yes", "--assume-yes", "-qy", "-yq", "-yqq"}:
            return 1, b""               # asks for confirmation, there is nobody to answer
        verb, names = pos[0], pos[1:]
        if verb == "install":
            return self.apply(cmd, opts, names, True)
        if verb == "remove":
            return self.apply(cmd, opts, names, False)
        return None, b""

    def emerge(self, cmd):
        opts, pos = self.split(cmd)
        if "--info" in opts:
            if len(pos) != 1:
                return None, b""
            return 0, b"Portage 3.0\n" + (b"x/y-1::gentoo was built with the following:\n" if self.entry(pos[0])[1] else b"")
        if set(opts) & {"--ask", "-a", "--pretend", "-p"}:
            return 1, b""
        return self.apply(cmd, opts, pos, not set(opts) & {"--depclean", "-c", "--unmerge", "-C"})


class PackageBase(Scenario):
    covers_converge = ["success", "no change"]
    samples = 2500
    extra = []
    has_opts = True
    removes_depends = True
    assumes = ["packages named in a request are known to the package manager; package managers do what their manual says for the options used; request lists of up to two names (bounded runs: three)"]

    def args(self):
        c = self.ctx
        n = c.choice("#packages", [0, 1, 2] if c.symbolic else [0, 1, 2, 3])
        self.names = [c.str(f"package{i}", dom=["htop", "git", "-n", "x y"]) for i in range(n)]
        for x in self.names:
            c.assume(x != "")
        self.present = c.bool("present")
        self.kw = {"packages": list(self.names), "present": self.present}
        self.opts = []
        if self.has_opts:
            o = c.choice("opts", [None, ["--quiet"]])
            self.kw["opts"] = o
            self.opts = o or []
        self.oneshot = False
        if "oneshot" in self.extra:
            self.oneshot = self.kw["oneshot"] = c.choice("oneshot", [False, True])
        if self.free and c.choice("a text instead of a list?", [False, True]):
            self.kw["packages"] = "htop"
        self.pos = []

    def prepare(self):
        self.pk = Packages(self.w, self.names)

    def valid(self):
        return not isinstance(self.kw["packages"], str)

    def observe(self):
        return self.pk.copy()

    def same(self, a, b):
        return [x[1] for x in a] == [x[1] for x in b]

    def desired(self, before, after):
        if not all(x[1] == bool(self.present) for x in after):
            return False
        if not all(set(self.opts) <= set(o) for _, o in self.pk.used):
            return False
        return all(("--oneshot" in o or "-1" in o) == bool(self.oneshot) for i, o in self.pk.used if i) if "oneshot" in self.extra else True

    def steady(self, before):
        return all(x[1] == bool(self.present) for x in before)

    def describes(self, st, d, before):
        inst = [x[0] for x in st if x[1]]
        return "installed" in d and len(d["installed"]) == len(inst) and same_set(d["installed"], inst)


class Pacman(PackageBase):
    name, functions = "pacman.package", ["fora.operations.pacman.package", "fora.operations.utils.generic_package"]
    fn = staticmethod(pacman.package)


class Apt(PackageBase):
    name, functions = "apt.package", ["fora.operations.apt.package", "fora.operations.utils.generic_package"]
    fn = staticmethod(apt.package)


class Portage(PackageBase):
    name, functions = "portage.package", ["fora.operations.portage.package", "fora.operations.utils.generic_package"]
    fn = staticmethod(portage.package)
    extra = ["oneshot"]


MANAGERS = {"pacman": "pacman", "apt-get": "apt-get", "emerge": "emerge"}


class Shell:
    """bash for real, seeing only the commands the machine has (answers are kept per query)."""
    known = {}

    def __init__(self, w, have):
        self.have = have
        w.extra["bash"] = w.extra["sh"] = self.run
        w.installed_commands = have

    def run(self, cmd):
        if len(cmd) != 3 or cmd[1] != "-c" or any(isinstance(x, sym.Sym) for x in cmd):
            return None, b""
        key = (cmd[0], cmd[2], tuple(self.have))
        if key not in self.known:
            d = tempfile.mkdtemp(prefix="pyvc-path")
            try:
                os.chmod(d, 0o755)
                os.mkdir(d + "/bin")
                os.chmod(d + "/bin", 0o755)
                for n in self.have:
                    with open(f"{d}/bin/{n}", "w") as f:
                        f.write("#!/bin/false\n")
                    os.chmod(f"{d}/bin/{n}", 0o755)
                r = subprocess.run(["/bin/" + cmd[0], "-c", cmd[2]], env={"PATH": d + "/bin"}, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=10,
                                   preexec_fn=lambda: (os.setgid(65534), os.setuid(65534)) if os.getuid() == 0 else None)
                self.known[key] = (r.returncode, r.stdout)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return self.known[key]


class SystemPackage(PackageBase):
    name, functions = "system.package", ["fora.operations.system.package", "fora.operations.utils.find_command", "fora.operations.utils.generic_package"]
    fn = staticmethod(system.package)
    has_opts = False
    covers_converge = ["success", "no change", "refused"]

    def prepare(self):
        super().prepare()
        self.have = self.ctx.choice("package managers", [["pacman"], ["apt-get", "dpkg-query"], ["emerge"], [], ["pacman", "emerge"]])
        Shell(self.w, self.have)
        for n in MANAGERS:
            if n not in self.have:
                self.w.extra[n] = self.missing

    def missing(self, cmd):
        return 127, b""

    def applicable(self, before):
        return bool(self.have)


# -- services -----------------------------------------------------------------
STARTED = ("active", "activating", "reloading")


class Systemd:
    """Contract of systemctl for one unit of the system and of the user manager."""

    def __init__(self, w, unit, user):
        self.w, self.ctx, self.unit = w, w.ctx, unit
        c = w.ctx
        o = c.choice("unit of the other manager", [("active", "enabled"), ("inactive", "disabled")])
        self.m = {not user: Rec(active=o[0], enabled=o[1], restarts=0, reloads=0, daemon=0),
                  user: Rec(active=c.choice("unit", ["active", "inactive", "failed", "activating", "deactivating", "reloading"]), enabled=c.choice("unit file", ["enabled", "disabled"]),
                            restarts=0, reloads=0, daemon=0)}
        w.extra["systemctl"] = self.systemctl

    def systemctl(self, cmd):
        user, value, props, pos, dd = False, False, [], [], False
        it = iter([force(x) for x in cmd[1:]])
        for a in it:
            if dd or isinstance(a, sym.Sym):
                if not dd and bool(a.startswith("-")):
                    raise O.Injected()
                pos.append(a)
            elif a == "--":
                dd = True
            elif a == "--user":
                user = True
            elif a == "--system":
                user = False
            elif a == "--value":
                value = True
            elif a in ("--property", "-p"):
                props.append(next(it, ""))
            elif a.startswith("--property="):
                props.append(a.split("=", 1)[1])
            elif a in ("--quiet", "-q", "--no-pager"):
                pass
            elif a.startswith("-"):
                return None, b""
            else:
                pos.append(a)
        if not pos or isinstance(pos[0], sym.Sym):
            return None, b""
        verb, units = pos[0], pos[1:]
        m = self.m[user]
        if verb == "daemon-reload":
            if units or not self.w.mutate(cmd):
                return 1, b""
            m.daemon += 1
            return 0, b""
        if len(units) != 1:
            return None, b""
        if not bool(units[0] == self.unit):
            self.w.log.append("another unit")
            return 0, b""
        if verb == "show":
            names = [x for p in props for x in p.split(",")]
            vals = {"ActiveState": m.active, "UnitFileState": m.enabled}
            if not names or set(names) - set(vals):
                return None, b""
            return 0, "".join((vals[n] if value else f"{n}={vals[n]}") + "\n" for n in names).encode()
        if verb == "is-active":
            return (0 if m.active in ("active", "reloading") else 3), (m.active + "\n").encode()
        if verb == "is-enabled":
            return (0 if m.enabled == "enabled" else 1), (m.enabled + "\n").encode()
        if verb not in ("start", "stop", "restart", "reload", "enable", "disable"):
            return None, b""
        if not self.w.mutate(cmd):
            return 1, b""
        if verb == "start":
            m.active = "active"
        elif verb == "stop":
            m.active = "inactive"
        elif verb == "restart":
            m.active = "active"
            m.restarts += 1
        elif verb == "reload":
            if m.active not in STARTED:
                return 1, b""
            m.active = "active"
            m.reloads += 1
        else:
            m.enabled = verb + "d"
        return 0, b""


class Service(Scenario):
    name, functions = "systemd.service", ["fora.operations.systemd.service"]
    fn = staticmethod(systemd.service)
    assumes = ["units can be enabled and disabled (neither static nor masked); systemctl does what its manual says; only running units are asked to reload"]
    covers_converge = ["success", "no change"]
    user_manager = True

    def args(self):
        c = self.ctx
        self.unit = c.str("unit", dom=["sshd", "-H", "a b"])
        c.assume(self.unit != "")
        self.state = c.choice("state", [None, "started", "stopped", "restarted", "reloaded"] + (["running"] if self.free else []))
        self.enabled = c.choice("enabled", [None, True, False])
        self.kw = {"state": self.state, "enabled": self.enabled}
        self.user = False
        if self.user_manager:
            self.user = self.kw["user_mode"] = c.choice("user_mode", [False, True])
        self.pos = [self.unit]

    def prepare(self):
        self.s = Systemd(self.w, self.unit, self.user)
        self.ctx.assume(self.state != "reloaded" or self.s.m[self.user].active in STARTED)
        self.other = self.s.m[not self.user].copy()

    def valid(self):
        return self.state != "running"

    def observe(self):
        return self.s.m[self.user].copy()

    def same(self, a, b):
        return ((a.active in STARTED) == (b.active in STARTED) and (a.enabled, a.restarts, a.reloads, a.daemon) == (b.enabled, b.restarts, b.reloads, b.daemon))

    def desired(self, before, after):
        on = after.active in STARTED
        ok = {None: (after.active, after.restarts, after.reloads) == (before.active, before.restarts, before.reloads),
              "started": on and (after.restarts, after.reloads) == (0, 0), "stopped": not on, "restarted": on and after.restarts == 1,
              "reloaded": on and after.reloads == 1 and after.restarts == 0}[self.state]
        return ok and after.enabled == (before.enabled if self.enabled is None else "enabled" if self.enabled else "disabled") and after.daemon == before.daemon

    def steady(self, before):
        if self.state in ("restarted", "reloaded"):
            return None
        on = before.active in STARTED
        return (self.state is None or on == (self.state == "started")) and (self.enabled is None or before.enabled == ("enabled" if self.enabled else "disabled"))

    def describes(self, st, d, before):
        on = st.active in STARTED
        return d.get("enabled") == (st.enabled == "enabled") and d.get("state") in (("started", "restarted", "reloaded") if on else ("stopped",)) and \
            (d["state"] not in ("restarted", "reloaded") or before is not None)

    def frame(self, snap):
        o = self.s.m[not self.user]
        return super().frame(snap) and o.__dict__ == self.other.__dict__


class SystemService(Service):
    name, functions = "system.service", ["fora.operations.system.service", "fora.operations.utils.find_command"]
    fn = staticmethod(system.service)
    user_manager = False
    covers_converge = ["success", "no change", "refused"]

    def prepare(self):
        super().prepare()
        self.have = self.ctx.choice("service managers", [["systemctl"], []])
        Shell(self.w, self.have)
        if not self.have:
            self.w.extra["systemctl"] = lambda cmd: (127, b"")

    def applicable(self, before):
        return bool(self.have)


class DaemonReload(Scenario):
    name, functions = "systemd.daemon_reload", ["fora.operations.systemd.daemon_reload"]
    fn = staticmethod(systemd.daemon_reload)
    settle = False
    refuses = False
    covers_converge = ["success"]

    def args(self):
        self.user = self.ctx.choice("user_mode", [False, True])
        self.pos, self.kw = [], {"user_mode": self.user}

    def prepare(self):
        self.s = Systemd(self.w, "x", self.user)

    def observe(self):
        return {u: r.copy() for u, r in self.s.m.items()}

    def same(self, a, b):
        return all(a[u].__dict__ == b[u].__dict__ for u in a)

    def desired(self, before, after):
        for u in before:
            before[u].daemon += u == self.user
        return self.same(before, after)


SCENARIOS = [UserIds, UserGroups, UserTexts, UserPaths, User, Group, Pacman, Apt, Portage, SystemPackage, Service, SystemService, DaemonReload]
