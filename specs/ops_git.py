"""git.repo against a contract of git(1): one remote repository, one local path."""
import z3

from pyvc import sym
from pyvc.sym import Atom, SymStr, force
from fora.operations import git
from specs import oplib as O
from specs.opcheck import Scenario
from specs.ops_system import Rec

OLD, NEWEST, TIP, TAGGED, TAGID, DECOY, ELSEWHERE = (c * 40 for c in "0123456")


def word(ctx, s):
    """A name that git accepts in a ref: not empty, no white space."""
    if not isinstance(s, sym.Sym):
        return s
    if s.concrete() is not None:
        return s
    z = s.z
    # only the tag is used to take texts apart, so "no white space" need not burden the string solver
    ctx.assume(sym.SymBool(z3.And(z != sym.sval(""), sym.ENCODABLE(z), sym.ufn("git_word", sym.S, sym.B)(z))))
    return SymStr((Atom(z, ("word",)),))


class Git:
    """Contract of git(1).  The remote has a default branch `trunk`, and below the requested name any of a branch, a tag and other refs ending in it."""

    def __init__(self, w, url, path, branch, local):
        c = self.ctx = w.ctx
        self.w, self.url, self.path, self.branch, self.local = w, url, path, branch, local
        self.name, self.outs = None, 0
        if branch is None:
            self.refs = [("ref: refs/heads/trunk", "HEAD"), (NEWEST, "HEAD"), (DECOY, "refs/remotes/origin/HEAD")]
            if c.choice("remote HEAD", ["branch", "none"]) == "none":
                self.refs = []
        else:
            kind = c.choice("remote has", ["branch", "tag", "annotated tag", "branch and tag", "other names", "nothing"])
            self.refs = []
            if kind != "nothing":
                # a name containing white space can be no ref
                n = self.name = word(c, branch)
                if not c.symbolic and (n == "" or n.startswith("-") or n != n.strip() or "/" in (n[:1], n[-1:])):
                    kind = "nothing"
            if kind != "nothing":
                h, t = "refs/heads/" + n, "refs/tags/" + n
                self.refs += [(DECOY, "refs/heads/aaa/" + n)]
                if kind in ("branch", "branch and tag"):
                    self.refs += [(NEWEST, h)]
                if kind in ("tag", "branch and tag"):
                    self.refs += [(TAGGED, t)]
                if kind == "annotated tag":
                    self.refs += [(TAGID, t), (TAGGED, t + "^{}")]
        self.kind = "HEAD" if branch is None else kind
        self.target = NEWEST if (self.refs and branch is None) or self.kind in ("branch", "branch and tag") else TAGGED if "tag" in self.kind else None
        self.follows = ("refs/heads/trunk" if branch is None else "refs/heads/" + self.name) if self.target == NEWEST else None
        w.extra["git"] = self.git

    def ask(self):
        w = self.w
        w.calls += 1
        if w.faults and not w.faulted and self.ctx.choice("git fails?", [False, True]):
            w.faulted = w.environment = True
            return False
        return True

    def is_path(self, p):
        return p is not None and (p is self.path or bool(p == self.path))

    def out(self, s):
        s = force(s)
        if isinstance(s, sym.Sym):
            self.outs += 1
            z = z3.String(f"git.out{self.outs}")
            self.ctx.axiom(z != sym.sval(""))
            return 0, sym.SymBytes((Atom(z, ("utf8", s, "valid")),))
        return 0, s.encode()

    def git(self, cmd):
        cmd = [force(x) for x in cmd]
        where, i = None, 1
        while i < len(cmd) and not isinstance(cmd[i], sym.Sym) and cmd[i].startswith("-"):
            if cmd[i] == "-C" and i + 1 < len(cmd):
                where, i = cmd[i + 1], i + 2
            else:
                return None, b""
        if i >= len(cmd) or isinstance(cmd[i], sym.Sym):
            return None, b""
        verb, rest = cmd[i], cmd[i:]
        loc = self.local
        here = where is not None and self.is_path(where) and loc.state == "git"
        opts, pos = self.w.parse(rest, valued=("--depth", "--branch", "-b", "--jobs", "-j"))
        if verb == "ls-remote":
            if not self.ask():
                return 128, b""
            if any(o not in ("--exit-code", "--symref", "--quiet", "-q", "--refs") for o in opts) or not pos:
                return None, b""
            if not bool(pos[0] == self.url):
                return None, b""
            want = pos[1:]
            lines = []
            for v, r in self.refs:
                if v.startswith("ref: ") and "--symref" not in opts or "--refs" in opts and (not isinstance(r, sym.Sym) and (r == "HEAD" or r.endswith("^{}"))):
                    continue
                if not want or any(self.tail(r, p) for p in want):
                    lines.append(v + "\t" + r + "\n")
            if not lines:
                return (2 if "--exit-code" in opts else 0), b""
            text = lines[0]
            for x in lines[1:]:
                text = text + x
            return self.out(text)
        if verb == "clone":
            if any(o not in ("--depth", "--branch", "-b", "--quiet", "-q", "--no-single-branch") for o in opts) or len(pos) != 2:
                return None, b""
            if not bool(pos[0] == self.url) or not self.is_path(pos[1]):
                self.w.log.append("clones something else")
                return 0, b""
            b = opts.get("--branch", opts.get("-b"))
            if not self.w.mutate(cmd):
                return 128, b""
            if loc.state is not None or not self.depth_ok(opts):
                return 128, b""
            if b is None:
                if self.branch is None:
                    if not self.refs:
                        return 128, b""
                    loc.commit, loc.ref = NEWEST, "refs/heads/trunk"
                else:
                    loc.commit, loc.ref = TIP, "refs/heads/trunk"
            else:
                if self.branch is None or not bool(b == self.branch) or self.target is None:
                    return 128, b""
                loc.commit, loc.ref = self.target, self.follows
            loc.state, loc.origin, loc.depth = "git", self.url, opts.get("--depth")
            self.show()
            return 0, b""
        if not here:
            return (128 if verb in ("rev-parse", "config", "symbolic-ref", "pull", "submodule") else None), b""
        if verb == "rev-parse":
            if any(o not in ("--verify", "--quiet", "-q") for o in opts) or len(pos) != 1 or pos[0] not in ("HEAD", "HEAD^{commit}"):
                return None, b""
            return self.out(loc.commit + "\n") if self.ask() else (128, b"")
        if verb == "config":
            if any(o != "--get" for o in opts) or len(pos) != 1 or pos[0] != "remote.origin.url":
                return None, b""
            return self.out(loc.origin + "\n") if self.ask() else (128, b"")
        if verb == "remote":
            if pos != ["get-url", "origin"]:
                return None, b""
            return self.out(loc.origin + "\n") if self.ask() else (128, b"")
        if verb == "symbolic-ref":
            if any(o not in ("--quiet", "-q") for o in opts) or pos != ["HEAD"]:
                return None, b""
            if not self.ask():
                return 128, b""
            return self.out(loc.ref + "\n") if loc.ref is not None else (1, b"")
        if verb == "pull":
            if any(o not in ("--depth", "--rebase", "--ff-only", "--quiet", "-q") for o in opts) or pos:
                return None, b""
            if not self.w.mutate(cmd) or not self.depth_ok(opts) or loc.ref is None:
                return 1, b""
            loc.pulled = (bool("--rebase" in opts), bool("--ff-only" in opts), opts.get("--depth"))
            if not bool(loc.origin == self.url):
                loc.commit = ELSEWHERE
            elif self.follows is not None and bool(loc.ref == self.follows):
                loc.commit = NEWEST
            elif bool(loc.ref == "refs/heads/another"):
                loc.commit = TIP
            else:
                return 1, b""       # no such branch
            return 0, b""
        if verb == "submodule":
            if pos[:1] != ["update"] or len(pos) != 1 or any(o not in ("--init", "--depth", "--recursive", "--quiet", "-q") for o in opts):
                return None, b""
            if not self.w.mutate(cmd) or not self.depth_ok(opts):
                return 1, b""
            loc.subs = (loc.commit, "--init" in opts, "--recursive" in opts, opts.get("--depth"))
            return 0, b""
        return None, b""

    def depth_ok(self, opts):
        d = opts.get("--depth")
        if d is None:
            return True
        if isinstance(d, sym.Sym):
            return bool(sym.SymBool(sym.ufn("int_of_str_10", sym.S, sym.I)(d.z) >= 1)) if not (hasattr(self, "depth") and bool(d == sym.str_of_int(self.depth))) else bool(self.depth >= 1)
        return d.isdigit() and int(d) >= 1

    @staticmethod
    def tail(ref, pat):
        """ls-remote matches patterns against the last components of a ref."""
        if not isinstance(ref, sym.Sym) and not isinstance(pat, sym.Sym):
            return ref == pat or ref.endswith("/" + pat)
        e = ref == pat
        head = pat.parts[0] if isinstance(pat, sym.Sym) else pat
        if isinstance(head, str) and head.startswith("refs/"):
            return bool(e)          # no ref has "/refs/" within its name
        return bool(e) or bool(SymStr((ref,)).endswith("/" + pat) if not isinstance(ref, sym.Sym) else ref.endswith("/" + pat))

    def show(self):
        """Make the local clone visible to stat."""
        o = self.w.at(self.path)
        g = self.w.at(self.gitdir)
        o.type, g.type = "dir", "dir"
        for x in (o, g):
            x.mode, x.owner, x.group = 0o755, self.w.me[0], self.w.me[1]


class Repo(Scenario):
    name, functions = "git.repo", ["fora.operations.git.repo", "fora.operations.utils.check_absolute_path"]
    fn = staticmethod(git.repo)
    assumes = ["git(1) does what its manual says (contract in specs/ops_git.py, any command may fail); an existing clone has no commits of its own and follows the upstream of its branch; "
               "names in refs contain no white space and no '/refs/'; the remote does not change between two commands of one run"]
    covers_converge = ["success", "no change", "refused"]
    enum, samples = 600, 3000
    seconds = 200
    locals = ["git", "plain dir", "dir with other .git", "object"]

    def args(self):
        c = self.ctx
        self.url = c.str("url", dom=["https://x/y", "-o", "u v"])
        self.path = c.str("path", dom=["/srv/r", "/srv/r/", "rel", ""] if self.free else ["/srv/r", "/a b"])
        if not self.free:
            c.assume(sym.SymStr((self.path,)).startswith("/") if not isinstance(self.path, sym.Sym) else self.path.startswith("/"))
        self.branch = c.str("branch", dom=["main", "v1", "a/b", "", "-f"]) if c.choice("named branch", [True, False]) else None
        c.assume(self.word_like(self.url))
        self.update = c.bool("update")
        self.depth = c.int("depth", lo=-3, hi=10**6, dom=[1, 7, 0, -1]) if c.choice("with depth", [False, True]) else None
        if self.depth is not None and not self.free:
            c.assume(self.depth >= 1)
        self.rebase, self.ff = c.bool("rebase"), c.bool("ff_only")
        self.subs = (c.bool("update_submodules"), c.bool("recursive_submodules"), c.bool("shallow_submodules"))
        self.pos = [self.url, self.path]
        self.kw = dict(branch_or_tag=self.branch, update=self.update, depth=self.depth, rebase=self.rebase, ff_only=self.ff,
                       update_submodules=self.subs[0], recursive_submodules=self.subs[1], shallow_submodules=self.subs[2])

    def word_like(self, s):
        if not isinstance(s, sym.Sym):
            return s != "" and not any(ch in s for ch in "\t\n") and s == s.strip()
        z = s.z
        return sym.SymBool(z3.And(z != sym.sval(""), sym.ENCODABLE(z), sym.ufn("git_word", sym.S, sym.B)(z)))

    def prepare(self):
        c, w = self.ctx, self.w
        st = c.choice("local", self.locals)
        self.loc = Rec(state=st, commit=None, ref=None, origin=None, depth=None, pulled=None, subs=None)
        self.g = Git(w, self.url, self.path, self.branch, self.loc)
        self.g.depth = self.depth
        self.g.gitdir = self.path + "/.git" if not bool(self.path.endswith("/")) else self.path + ".git"
        known, w.entries = w.entries, []
        w.put(self.path, **({} if st is None else dict(type=c.choice("type", ["file", "link", "other"]) if st == "object" else "dir", mode=0o755, owner="root", group="root")))
        w.put(self.g.gitdir, **(dict(type="dir" if st == "git" else "file", mode=0o755, owner="root", group="root") if st in ("git", "dir with other .git") else {}))
        w.entries += known
        if st == "git":
            self.loc.commit = c.choice("HEAD", ["target", "old"])
            if self.loc.commit == "target":
                c.assume(self.g.target is not None)
                self.loc.commit = self.g.target
            else:
                self.loc.commit = OLD
            r = c.choice("checked out", ["requested", "another", "detached"])
            self.loc.ref = None if r == "detached" else "refs/heads/gone" if r == "another" and c.choice("upstream gone", [False, True]) else "refs/heads/another" if r == "another" or self.g.name is None and self.branch is not None else \
                "refs/heads/" + ("trunk" if self.branch is None else self.g.name)
            if self.branch is not None:
                for n in ("another", "gone", "trunk"):
                    c.assume(self.branch != n)
            self.loc.origin = self.url if c.choice("origin", ["url", "other"]) == "url" else "https://other/one"
            if isinstance(self.url, sym.Sym):
                if self.loc.origin is self.url:
                    self.loc.origin = SymStr((Atom(self.url.z, ("word",)),))
                else:
                    c.assume(self.url != "https://other/one")

    def valid(self):
        return bool(self.path.startswith("/")) and (self.depth is None or bool(self.depth >= 1))

    def applicable(self, before):
        if before.state is None:
            return self.g.target is not None
        if before.state != "git":
            return False
        if not bool(self.update):
            return True
        if self.g.target is None:
            return False
        if before.commit == self.g.target:
            return True
        return self.g.follows is not None and before.ref is not None and self.g.target == NEWEST and bool(before.origin == self.url) and bool(before.ref == self.g.follows)

    def observe(self):
        return self.loc.copy()

    def same(self, a, b):
        return (a.state, a.commit) == (b.state, b.commit)

    def desired(self, before, after):
        if after.state != "git":
            return False
        if before.state is not None and (not bool(self.update) or before.commit == self.g.target):
            return self.same(before, after) and not self.w.log
        if after.commit != self.g.target or not bool(after.origin == self.url):
            return False
        if (after.ref is None) != (self.g.follows is None) or (after.ref is not None and not bool(after.ref == self.g.follows)):
            return False
        d = None if self.depth is None else str(self.depth) if not isinstance(self.depth, sym.Sym) else sym.str_of_int(self.depth)
        eq = lambda x, y: (x is None) == (y is None) and (x is None or x == y)
        cs = [eq(after.depth, d) if before.state is None else after.pulled[:2] == (bool(self.rebase), bool(self.ff)), True if before.state is None else eq(after.pulled[2], d)]
        if bool(self.subs[0]):
            cs.append(after.subs is not None and after.subs[:3] == (after.commit, True, bool(self.subs[1])))
            cs.append(after.subs is not None and eq(after.subs[3], d if bool(self.subs[2]) else None))
        else:
            cs.append(after.subs == before.subs)
        return sym.conj(*cs)

    def steady(self, before):
        return before.state == "git" and (not bool(self.update) or before.commit == self.g.target)

    def describes(self, st, d, before):
        return d.get("initialized") == (st.state == "git") and d.get("commit") == st.commit


class Clone(Repo):
    name = "git.repo (fresh)"
    locals = [None]
    covers_converge = ["success", "refused"]
    settle = False


SCENARIOS = [Repo, Clone]
