"""Scenarios of the file operations: arguments and, independently of the code, the state they ask for."""
import atexit
import builtins
import multiprocessing.util
import os
import re
import shutil
import tempfile

import jinja2
from jinja2.exceptions import UndefinedError

from pyvc import rt, sym
from pyvc.core import Unsupported
from pyvc.sym import force
from specs import oplib as O
from specs.opcheck import Scenario

import fora.operations.files as files

PATHS = ["/srv/x", "/-d", "/a b/\n*"]
BADPATHS = ["", "x", "-rf", "./x"]
F = "fora.operations.files."


class FileBase(Scenario):
    """Operations on one path."""
    aims = "file"
    mode_default = "file_mode"
    has_mode = True
    ATTR = ("mode", "owner", "group")
    assumes = ["the managed path is not the working directory, and different path texts denote different objects",
               "file names and link targets can be encoded for the file system"]

    def common(self):
        c = self.ctx
        self.path = c.str("path", dom=PATHS + (BADPATHS if self.free else []))
        if not self.free:
            c.assume(self.path.startswith("/"))
        c.assume(self.path != "/tmp")
        self.kw = {}
        if self.has_mode:
            self.kw["mode"] = c.opt("mode", lambda: c.str("mode", dom=O.FILEMODES))
        self.kw["owner"] = c.opt("owner", lambda: c.str("owner", dom=O.OWNERS))
        self.kw["group"] = c.opt("group", lambda: c.str("group", dom=O.GROUPS))

    def prepare(self):
        """Effective attributes by the documentation: requested, else the defaults. None when invalid."""
        c, w, conn = self.ctx, self.w, self.conn
        self.eff = None
        m = force(self.kw.get("mode"))
        m = O.octal(c, m if m is not None else getattr(conn.base_settings, self.mode_default))
        u, g = w.me
        o, gr = force(self.kw.get("owner")), force(self.kw.get("group"))
        f, w.faults = w.faults, False
        try:
            if o is not None:
                u = conn.connector.resolve_user(o)
            if gr is not None:
                g = conn.connector.resolve_group(gr)
        except ValueError:
            return
        finally:
            w.faults = f
        w.types = [self.aims] + [t for t in O.World.TYPES if t != self.aims]
        if m is not None:
            self.eff = (m, u, g)
            w.hint = {"mode": m, "owner": u, "group": g, "target": getattr(self, "target", None), "content": self.hint_content()}

    def hint_content(self):
        c = getattr(self, "content", None)
        if self.ctx.symbolic or c is None:
            return None
        return c.encode("utf-8", "replace") if isinstance(c, str) else c

    def valid(self):
        return self.eff is not None and (not self.free or bool(self.path.startswith("/")))

    def applicable(self, before):
        return before.type in (None, self.aims)

    def observe(self):
        return self.w.at(self.path).copy()

    def same(self, a, b):
        return O.same_obj(a, b)

    def attrs_ok(self, o):
        m, u, g = self.eff
        return sym.conj(o.mode == m, o.owner == u, o.group == g)

    def frame(self, snap):
        mine = self.w.at(self.path)
        others = []
        for p, o in snap.entries:
            now = next(x for q, x in self.w.entries if q is p)
            if now is not mine:
                others.append(O.same_obj(o, now))
        return not [e for e in self.w.log if isinstance(e, str)] and (sym.conj(*others) if others else True)

    def describes(self, st, d, before):
        """Every reported attribute is the one of the object; an absent object has none."""
        if "exists" not in d:
            return False
        e = d["exists"]
        if st.type is None:
            return sym.conj(e == False, *[d[k] is None for k in ("mode", "owner", "group", "target", "sha512") if k in d])   # noqa
        cs = [e == True]   # noqa
        if "mode" in d:
            v = O.octal(self.ctx, d["mode"]) if d["mode"] is not None else None
            cs.append(v is not None and v == st.mode)
        for k in ("owner", "group", "target"):
            if k in d:
                cs.append(d[k] is not None and d[k] == getattr(st, k))
        if "sha512" in d:
            cs.append(d["sha512"] is not None and d["sha512"] == O.sha512(self.ctx, st.content))
        if "touched" in d and before is not None and before.type is not None:
            cs.append(d["touched"] == (st.touched > before.touched))
        return sym.conj(*cs)


class File(FileBase):
    name, aims = "file", "file"
    functions = [F + "file"]
    fn = staticmethod(files.file)

    def args(self):
        c = self.ctx
        self.common()
        self.kw["present"] = self.present = c.bool("present")
        self.kw["touch"] = self.touch = c.bool("touch")
        self.pos = [self.path]

    def desired(self, before, after):
        if not bool(self.present):
            return after.type is None
        if after.type != self.aims:
            return False
        cs = [self.attrs_ok(after)]
        if self.aims == "file":
            cs.append(after.content == (before.content if before.type == "file" else b""))
        if bool(self.touch) and before.type is not None:
            cs.append(after.touched > before.touched)
        else:
            cs.append(after.touched == before.touched)
        return sym.conj(*cs)

    def steady(self, o):
        """Condition: the object is already as asked for (None: never, e.g. touching)."""
        if not bool(self.present):
            return o.type is None
        if bool(self.touch):
            return None
        return o.type == self.aims and self.attrs_ok(o)


class Directory(File):
    name, aims = "directory", "dir"
    functions = [F + "directory"]
    fn = staticmethod(files.directory)
    mode_default = "dir_mode"


class Link(FileBase):
    name, aims = "link", "link"
    functions = [F + "link"]
    fn = staticmethod(files.link)
    has_mode = False

    def args(self):
        c = self.ctx
        self.common()
        self.target = c.str("target", dom=["/old", "new", "-n", "\udcff", "../x y"])
        c.assume(self.target != "")
        self.kw["present"] = self.present = c.bool("present")
        self.kw["touch"] = self.touch = c.bool("touch")
        self.pos = [self.path, self.target]

    def attrs_ok(self, o):
        m, u, g = self.eff
        return sym.conj(o.owner == u, o.group == g, o.target == self.target)

    def desired(self, before, after):
        if not bool(self.present):
            return after.type is None
        if after.type != "link":
            return False
        cs = [self.attrs_ok(after)]
        if bool(self.touch) and before.type is not None:
            cs.append(after.touched > before.touched)
        else:
            cs.append(after.touched == before.touched)
        return sym.conj(*cs)

    def steady(self, o):
        if not bool(self.present):
            return o.type is None
        if bool(self.touch):
            return None
        return o.type == "link" and self.attrs_ok(o)


class UploadContent(FileBase):
    name, aims = "upload_content", "file"
    functions = [F + "upload_content", "fora.operations.utils.save_content"]
    fn = staticmethod(files.upload_content)

    def args(self):
        c = self.ctx
        self.common()
        self.content = c.bytes("content", dom=[b"", b"new\n", b"old\n", b"\xff\n"])
        self.pos = [self.content, self.path]

    def attrs_ok(self, o):
        m, u, g = self.eff
        return sym.conj(o.mode == m, o.owner == u, o.group == g, o.content == self.content)

    def desired(self, before, after):
        return after.type == "file" and self.attrs_ok(after)

    def steady(self, o):
        return o.type == "file" and self.attrs_ok(o)


class InventoryDefaults:
    """Mixin: the defaults come from the inventory, in any spelling."""

    @staticmethod
    def settings(ctx):
        from fora.remote_settings import RemoteSettings
        return RemoteSettings(file_mode=ctx.str("inventory.file_mode", dom=O.FILEMODES), dir_mode=ctx.str("inventory.dir_mode", dom=O.FILEMODES),
                              umask="022", cwd="/tmp")

    def common(self):
        super().common()
        self.kw = {}

    def prepare(self):
        b = self.conn.base_settings
        super().prepare()
        # both modes are checked whenever defaults are resolved
        if O.octal(self.ctx, b.file_mode) is None or O.octal(self.ctx, b.dir_mode) is None:
            self.eff = None


class FileInventory(InventoryDefaults, File):
    name = "file with inventory defaults"


class DirectoryInventory(InventoryDefaults, Directory):
    name = "directory with inventory defaults"


class UploadContentInventory(InventoryDefaults, UploadContent):
    name = "upload_content with inventory defaults"


class LocalFile:
    """Stand-in for a local file opened by the code (proof runs; other runs use a scratch file)."""

    def __init__(self, data):
        self.data = data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def read(self, *a):
        return self.data

    def close(self):
        pass


class Upload(UploadContent):
    """Uploads of a local file; a destination ending in a slash names the directory."""
    name = "upload"
    functions = [F + "upload", "fora.operations.utils.save_content"]
    fn = staticmethod(files.upload)
    text = False
    delegating = True

    def args(self):
        c = self.ctx
        self.common()
        self.dest = self.path
        self.data(c)
        if c.symbolic:
            self.src = c.str("src")
            base = rt.call(os.path.basename, self.src)
            c.assume(base != "")

            def open_(p, mode="r", *a, **k):
                c.ensure("the requested local file is read", p == self.src, p)
                if not self.text and "b" not in mode:
                    raise Unsupported("text mode")
                return LocalFile(self.local)
            rt.EXTERNALS[builtins.open] = open_
        else:
            base = c.str("basename", dom=["x", "-n", "a b"])
            self.src = scratch(base, self.local)
            rt.ALLOW_REAL.add(builtins.open)
        if c.choice("destination ends in a slash", [False, True]):
            self.dest = self.dest + ("" if not c.symbolic and self.dest.endswith("/") else "/")
            self.path = self.dest + base
            c.assume(self.path != "/tmp")
        else:
            c.assume(sym.neg(self.path.endswith("/")))
        self.pos = [self.src, self.dest]

    def well_formed(self):
        return bool(self.path.startswith("/"))

    def same_content(self, x):
        return x == self.content

    def data(self, c):
        self.local = self.content = c.bytes("content", dom=[b"", b"new\n", b"old\n", b"\xff\n\r\n"])


class UploadContentText(UploadContent):
    name = "upload_content of text"

    def args(self):
        super().args()
        t = self.ctx.str("text", dom=["", "new\n", "\xe4\r\n"])
        self.ctx.assume(encodable(self.ctx, t))
        self.content = t.encode("utf-8")
        self.pos = [t, self.path]


def encodable(ctx, t):
    if ctx.symbolic:
        return sym.SymBool(sym.ENCODABLE(t.z))
    try:
        t.encode()
        return True
    except UnicodeEncodeError:
        return False


class Templ:
    """Rendering is a function of the template text and the variables (assumed contract of jinja2)."""

    def __init__(self, s, text):
        self.s, self.text = s, text

    def render(self, *a, **k):
        s, c = self.s, self.s.ctx
        s.vars = dict(*a, **k)
        if s.undefined:
            raise UndefinedError("undefined")
        return c.fn("render", "str", self.text, dom=["new\n", "old\n", "\xe4"])


class TemplateContent(UploadContent):
    name = "template_content"
    functions = [F + "template_content", F + "_render_template", "fora.operations.utils.save_content"]
    fn = staticmethod(files.template_content)
    delegating = True

    def args(self):
        c = self.ctx
        self.common()
        self.template(c)
        self.pos = [self.local, self.path]

    def template(self, c):
        self.local = c.str("template", dom=["t"])
        self.undefined = c.choice("undefined variable", [False, True])
        self.kw["context"] = c.choice("context", [None, {"a": 1, "host": "no", "inventory": "no"}])
        self.vars = None
        rt.EXTERNALS[jinja2.Environment.from_string] = lambda env, text, *a, **k: Templ(self, text)
        r = c.fn("render", "str", self.local, dom=["new\n", "old\n", "\xe4"])
        c.assume(encodable(c, r))
        self.rendered = r
        self.content = r.encode("utf-8")

    def valid(self):
        return super().valid() and not self.undefined

    def well_formed(self):
        return bool(self.path.startswith("/")) and not self.undefined

    def same_content(self, x):
        """The rendering, and the variables it was given."""
        import fora
        v = self.vars
        ctxv = self.kw["context"] or {}
        ok = v is not None and v.get("host") is fora.host and v.get("inventory") is fora.inventory and all(
            v.get(k) == y for k, y in ctxv.items() if k not in ("host", "inventory"))
        return ok and x == (self.rendered if isinstance(x, str) else self.content)

    def desired(self, before, after):
        return sym.conj(super().desired(before, after), self.same_content(after.content))


class Template(TemplateContent, Upload):
    name = "template"
    functions = [F + "template", F + "_render_template", "fora.operations.utils.save_content"]
    fn = staticmethod(files.template)
    text = True
    args = Upload.args

    def data(self, c):
        self.template(c)


CONTENTS = [b"foo\n", b"", b"foo", b"bar\nfoo\nbaz\n", b"bar\n\tfoo \nx", b"foo\nfoo\n", b"a\x0cb\n", b"bar\r\nfoo\r\n", b"\xff\xfe\nfoo\n", b"foobar\n", b"\n", b"bar\xe2\x80\xa8foo\n",
            b"bar\n\nfoo", b" foo\n", b"bar"]


class Line(FileBase):
    """One line of a text file. Bounded: contents, lines and patterns from the listed domains."""
    name, aims = "line", "file"
    functions = [F + "line"]
    fn = staticmethod(files.line)
    has_mode = False
    prove = False
    enum, samples = 600, 4000
    assumes = ["line: patterns match within one line, and match the line that is to be added; no line feeds in the line"]

    def args(self):
        c = self.ctx
        self.common()
        self.kw = {}
        self.line = c.str("line", dom=["foo", " foo ", "foobar", "", "x", "\udcff\udcfe", "b", "foo\r"])
        self.kw["present"] = self.present = c.bool("present")
        self.regex = self.kw["regex"] = c.choice("regex", [None, None, "foo", "^foo$", "^\\s*fo+", "b$", "\\."])
        self.ws = self.kw["ignore_whitespace"] = c.bool("ignore_whitespace")
        self.backup = self.kw["backup"] = c.choice("backup", [False, True, "old.bak"])
        self.pos = [self.path, self.line]
        if self.regex is not None and self.present:
            c.assume(re.search(self.regex, self.line))

    def prepare(self):
        super().prepare()
        o = self.w.at(self.path)
        if o.type == "file":
            o.content = self.ctx.bytes("file content", dom=CONTENTS)
        self.w.types = [None]
        self.known = len(self.w.entries)

    def lines(self, b):
        r = (b or b"").split(b"\n")
        return r[:-1] if r[-1] == b"" else r

    def match(self, b):
        t = b.decode("utf-8", "surrogateescape").rstrip("\r")
        if self.regex is not None:
            return bool(re.search(self.regex, t))
        return t.strip() == self.line.strip() if self.ws else t == self.line.rstrip("\r\n")

    def attrs_kept(self, before, after):
        if before.type is None:
            m, u, g = self.eff
            return after.mode == m and after.owner == u and after.group == g
        return after.mode & 0o1777 == before.mode & 0o1777 and after.owner == before.owner and after.group == before.group

    def desired(self, before, after):
        old = self.lines(before.content)
        if self.present:
            if after.type != "file":
                return False
            new = self.lines(after.content)
            want = old if any(map(self.match, old)) else old + [self.line.encode("utf-8", "surrogateescape")]
        else:
            if before.type is None:
                return after.type is None
            new, want = self.lines(after.content), [x for x in old if not self.match(x)]
        ok = new == want and self.attrs_kept(before, after)
        if not self.backup or before.type is None or before.content == after.content:
            return ok and len(self.w.entries) == self.known
        if len(self.w.entries) != self.known + 1:
            return False
        p, o = self.w.entries[-1]
        d, b = os.path.split(self.path)
        if self.backup is True:
            if not p.startswith(self.path + ".") or not re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|\+00:00)\.bak", p[len(self.path) + 1:]):
                return False
        elif p != os.path.join(d, self.backup):
            return False
        return ok and o.type == "file" and o.content == before.content

    def steady(self, o):
        if o.type is None:
            return not self.present
        return any(map(self.match, self.lines(o.content))) == self.present

    def describes(self, st, d, before):
        return d.get("line_present") == (st.type == "file" and any(map(self.match, self.lines(st.content))))

    def frame(self, snap):
        for p, o in snap.entries:
            if p is not self.path and not O.same_obj(o, next(x for q, x in self.w.entries if q is p)):
                return False
        return not [e for e in self.w.log if isinstance(e, str)]


SHAPES = [
    {}, {"f": b"new\n"}, {"d": None}, {"d": None, "d/f": b"new\n"}, {"-n": b"", "a b": None, "a b/f": b"\xff", "a b/e": None, "a b/e/g": b"x"},
    {"f": b"new\n", "lf": ("link", "f", b"new\n")}, {"dangling": ("link", "/nowhere"), "d": None},      # links to directories: unspecified
    {"pipe": ("fifo",), "f": b"x"}, {"d": None, "d/a": None, "d/a/b": None, "d/a/b/f": b"1"},
]


def tree(n, name):
    """A local source directory of the given shape."""
    base = os.path.dirname(scratch("keep", b""))
    d = f"{base}/tree{n}/{name}"
    if not os.path.isdir(d):
        os.makedirs(d)
        for k, v in SHAPES[n].items():
            if v is None:
                os.mkdir(f"{d}/{k}")
            elif isinstance(v, bytes):
                with open(f"{d}/{k}", "wb") as f:
                    f.write(v)
            elif v[0] == "link":
                os.symlink(v[1], f"{d}/{k}")
            else:
                os.mkfifo(f"{d}/{k}")
    return d


class UploadDir(FileBase):
    """A tree of directories and files. Bounded: the listed shapes."""
    name, aims = "upload_dir", "dir"
    functions = [F + "upload_dir"]
    fn = staticmethod(files.upload_dir)
    prove = False
    enum, samples = 400, 5000
    # every part is an operation of its own: only malformed requests are refused as a whole
    assumes = ["upload_dir: the remote tree is consistent (objects exist only in directories)"]

    def args(self):
        c = self.ctx
        self.common()
        del self.kw["mode"]
        self.kw["dir_mode"] = c.opt("dir_mode", lambda: c.str("dir_mode", dom=O.FILEMODES))
        self.kw["file_mode"] = c.opt("file_mode", lambda: c.str("file_mode", dom=O.FILEMODES))
        self.shape = c.choice("shape", list(range(len(SHAPES))))
        name = c.choice("source", ["src", "-n", "a b"])
        src = tree(self.shape, name) + c.choice("source ends in", ["", "/"])
        dest = self.path
        if c.choice("destination ends in a slash", [False, True]):
            dest = dest + "/"
            self.path = dest + name
        self.missing = self.free and c.choice("source is no directory", [False, False, False, True])
        if self.missing:
            src = scratch("keep", b"")
        self.pos = [src, dest]
        rt.ALLOW_REAL.update({builtins.open, os.walk, os.scandir, os.listdir, os.stat, os.lstat, os.getcwd})
        rt.ALLOW_REAL.update(getattr(os.path, n) for n in ("isdir", "isfile", "islink", "realpath", "abspath", "relpath", "exists", "lexists"))
        rt.ALLOW_REAL.update({__import__("glob").glob})

    def prepare(self):
        c, w, conn = self.ctx, self.w, self.conn
        b = conn.base_settings
        self.eff = None
        modes = [O.octal(c, self.kw[k] if self.kw[k] is not None else getattr(b, k)) for k in ("dir_mode", "file_mode")]
        self.kw["mode"] = None
        super().prepare()
        del self.kw["mode"]
        ok = self.eff is not None and None not in modes
        u, g = (self.eff or (0, None, None))[1:]
        self.eff = (modes[0], u, g) if ok else None
        self.parts = {self.path: None}
        self.skipped = []
        for k, v in SHAPES[self.shape].items():
            if v is None or isinstance(v, bytes):
                self.parts[f"{self.path}/{k}"] = v
            elif len(v) > 2:
                self.parts[f"{self.path}/{k}"] = v[2]
            else:
                self.skipped.append(f"{self.path}/{k}")
        self.want = {p: ((modes[0] if v is None else modes[1]), u, g, v) for p, v in self.parts.items()}
        for p, (m, u_, g_, v) in self.want.items():
            parent = self.parts.get(os.path.dirname(p), "none") is None and p != self.path
            if parent and w.at(os.path.dirname(p)).type != "dir":
                w.put(p)
                continue
            t = "dir" if v is None else "file"
            w.types = [t, None, t, "link", "file" if t == "dir" else "dir"]
            w.hint = {"mode": m, "owner": u_, "group": g_, "content": v}
            w.at(p)
        for p in self.skipped:
            w.put(p)

    def valid(self):
        return self.eff is not None and not self.missing and (not self.free or self.pos[1].startswith("/"))

    def applicable(self, before):
        return all(before[p].type in (None, "dir" if v is None else "file") for p, v in self.parts.items())

    def observe(self):
        return {p: self.w.at(p).copy() for p in list(self.parts) + self.skipped}

    def same(self, a, b):
        return all(bool(O.same_obj(a[p], b[p])) for p in a)

    def _is(self, o, p):
        m, u, g, v = self.want[p]
        return o.type == ("dir" if v is None else "file") and o.mode == m and o.owner == u and o.group == g and (v is None or o.content == v)

    def desired(self, before, after):
        made = [e[-1] for e in self.w.log if isinstance(e, list) and e[0] == "mkdir"]
        order = all(before[os.path.dirname(p)].type == "dir" or os.path.dirname(p) in made[:i] for i, p in enumerate(made) if os.path.dirname(p) in self.parts)
        return order and all(self._is(after[p], p) for p in self.parts) and all(bool(O.same_obj(before[p], after[p])) for p in self.skipped)

    def steady(self, before):
        return all(self._is(before[p], p) for p in self.parts)

    def describes(self, st, d, before):
        norm = {os.path.normpath(k): v for k, v in d.items()}
        if set(norm) != {os.path.normpath(p) for p in self.parts}:
            return False
        return all(bool(FileBase.describes(self, st[p], norm[os.path.normpath(p)], before[p] if before else None)) for p in self.parts)

    def frame(self, snap):
        mine = [self.w.at(p) for p in self.parts]
        for p, o in snap.entries:
            now = next(x for q, x in self.w.entries if q is p)
            if not any(now is m for m in mine) and not bool(O.same_obj(o, now)):
                return False
        return not [e for e in self.w.log if isinstance(e, str)]


class UploadDirRefusals(UploadDir):
    """Malformed requests only: objects in the way are found by the part that meets them."""
    def applicable(self, before):
        return True


_scratch = None


def scratch(base, data):
    """A local scratch file for runs on ordinary values."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="pyvc-")
        _scratch = (os.getpid(), d)
        atexit.register(shutil.rmtree, d, True)
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=1)
    p = os.path.join(_scratch[1], base)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return p


SCENARIOS = [File, Directory, Link, UploadContent, UploadContentText, FileInventory, DirectoryInventory, UploadContentInventory, Upload, TemplateContent, Template, Line, UploadDir]
REFUSALS = SCENARIOS[:-1] + [UploadDirRefusals]
