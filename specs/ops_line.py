"""files.line on files of any number of lines with any texts.

A file is an unknown number of lines; a line is an opaque text of which only what the operation
asks is known: the text without surrounding whitespace (`strip`), without its line ending (`core`),
whether it ends in a line feed and whether the pattern matches it.  Obligations are never reported
as violations here (see pyvc/graphs.py): where the argument does not go through, the bounded
scenario `line` decides alone.
"""
import io
import os
import re

import z3

from pyvc import core, rt, sym
from pyvc.core import Unsupported
from pyvc.graphs import Nodes, World as GraphWorld, as_pred
from pyvc.sym import OBJ, SymBool, SymInt, force
from specs import oplib as O
from specs.ops_files import FileBase, Line

TEXT = z3.Function("line_text", OBJ, OBJ)          # occurrence -> its text, with its ending
STRIP = z3.Function("line_strip", OBJ, OBJ)
CORE = z3.Function("line_core", OBJ, OBJ)
NL = z3.Function("line_nl", OBJ, OBJ)
ENDED = z3.Function("line_ended", OBJ, z3.BoolSort())
FOUND = z3.Function("pattern_found", OBJ, z3.BoolSort())


class Opaque:
    """Everything else of a stand-in is unknown (not: missing)."""

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("sym_"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of {type(self).__name__}")

    def _no(self, *a):
        raise Unsupported(f"an operation on {type(self).__name__}")

    __format__ = __str__ = __iter__ = __len__ = __getitem__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __radd__ = __add__ = __mul__ = __contains__ = _no

    def __repr__(self):
        return type(self).__name__

    __hash__ = object.__hash__


class Text(Opaque):
    """A text: z."""
    __class__ = property(lambda self: str)

    def __init__(self, z):
        self.z = z

    def strip(self, *a):
        if a:
            raise Unsupported("strip(chars)")
        return Text(strip(self.z))

    def rstrip(self, *a):
        if a not in (("\r\n",), ("\n\r",)):
            raise Unsupported("rstrip")
        return Text(core_of(self.z))

    def endswith(self, s, *a):
        if s != "\n" or a:
            raise Unsupported("endswith")
        return SymBool(ENDED(self.z))

    def sym_join_items(self, sep, items):
        r = Lines(Doc(self.w_(), empty=True))
        r.extend(items)
        return r.sym_join(sep)

    @staticmethod
    def w_():
        return core.cur().graph_world

    def __add__(self, s):
        if type(s) is not str or s != "\n":
            raise Unsupported("text + text")
        return Text(nl(self.z))

    def __eq__(self, o):
        o = force(o)
        if type(o) is not Text:
            raise Unsupported("text compared with something else")
        return SymBool(self.z == o.z)

    def __ne__(self, o):
        return sym.neg(self == o)

    __hash__ = None


def axiom(z):
    core.cur().axiom(z)


def _is(z, f):
    return z3.is_app(z) and z.decl().eq(f)


def strip(z):
    if _is(z, STRIP):
        return z
    if _is(z, NL) or _is(z, CORE):       # a line ending is whitespace
        return strip(z.arg(0))
    return STRIP(z)


def core_of(z):
    if _is(z, CORE) or _is(z, STRIP):
        return z
    if _is(z, NL):
        return core_of(z.arg(0))
    return CORE(z)


def nl(z):
    axiom(ENDED(NL(z)))
    return NL(z)


class Doc:
    """The lines of one text."""

    def __init__(self, w, empty=False):
        self.w = w
        if empty:
            self.P, self.state = lambda x: z3.BoolVal(False), (None,)
            return
        f = z3.Function("is_line", OBJ, z3.BoolSort())
        self.P = lambda x: f(x)
        self.state = None

    def last(self):
        """The last line; None when the text is empty. All others end in a line feed."""
        if self.state is None:
            w = self.w
            c = Nodes(self.P, "last").witness()
            if c is not None:
                z = c.z
                w.fact(1, lambda x: z3.Implies(z3.And(self.P(x), x != z), ENDED(TEXT(x))))
            self.state = (c,)
        return self.state[0]


class Mapped(Opaque):
    """[f(l) for l in lines]"""
    sym_graph = True
    __class__ = property(lambda self: list)

    def __init__(self, nodes, f):
        self.nodes, self.f = nodes, f

    def sym_contains(self, v):
        return self.nodes.sym_any(lambda x: self.f(x) == v)

    __contains__ = sym_contains

    def sym_list(self):
        return self

    sym_set = sym_list

    def sym_any(self, f=None, cond=None):
        return self.nodes.sym_any((lambda x: f(self.f(x))) if f else self.f, (lambda x: cond(self.f(x))) if cond else None)


elem = lambda x: Text(TEXT(x.z))


class Lines(Opaque):
    """A list of the lines of `doc` that satisfy `kept`, in order; the last one perhaps ended; then `added` texts."""
    sym_graph = True
    __class__ = property(lambda self: list)

    def __init__(self, doc, kept=None):
        self.doc, self.kept = doc, kept
        self.ended, self.added = False, []

    @property
    def pred(self):
        P, K = self.doc.P, self.kept
        return P if K is None else lambda x: z3.And(P(x), K(x))

    def plain(self):
        if self.ended or self.added:
            raise Unsupported("examining lines that were changed")
        return Nodes(self.pred, "line")

    def copy(self):
        r = Lines(self.doc, self.kept)
        r.ended, r.added = self.ended, list(self.added)
        return r

    sym_list = copy

    def __bool__(self):
        if self.added:
            return True
        return (self.doc.last() if self.kept is None else Nodes(self.pred, "kept").witness()) is not None

    def sym_len(self):
        w = self.doc.w
        n = z3.Int(w.fresh("lines"))
        w.add(n > 0 if bool(self) else n == 0)
        return SymInt(n)

    def __getitem__(self, i):
        if i != -1 or type(i) is not int or self.kept is not None:
            raise Unsupported("index of a line")
        if self.added:
            return self.added[-1]
        c = self.doc.last()
        if c is None:
            raise IndexError("list index out of range")
        return Text(nl(TEXT(c.z))) if self.ended else Text(TEXT(c.z))

    def __setitem__(self, i, v):
        v = force(v)
        if type(i) is not int or i != -1 or self.kept is not None or self.added or self.ended or type(v) is not Text:
            raise Unsupported("changing a line")
        c = self.doc.last()
        if c is None:
            raise IndexError("list assignment index out of range")
        if z3.eq(v.z, TEXT(c.z)):
            return
        if not z3.eq(v.z, NL(TEXT(c.z))):
            raise Unsupported("changing a line")
        self.ended = True

    def append(self, v):
        v = force(v)
        if type(v) is not Text:
            raise Unsupported("adding something else")
        self.added.append(v)

    def extend(self, vs):
        if type(vs) not in (list, tuple):
            raise Unsupported("extend")
        for v in vs:
            self.append(v)

    def __add__(self, vs):
        r = self.copy()
        r.extend(vs)
        return r

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def sym_any(self, f=None, cond=None):
        g = (lambda x: f(elem(x))) if f else None
        return self.plain().sym_any(g, (lambda x: cond(elem(x))) if cond else None)

    def sym_contains(self, v):
        return self.sym_any(lambda l: l == v)

    __contains__ = sym_contains

    def sym_filter(self, f):
        w, n = self.doc.w, self.plain()
        K = as_pred(w, n.pred, lambda x: f(elem(x)))
        old = self.kept
        return Lines(self.doc, K if old is None else lambda x: z3.And(old(x), K(x)))

    def sym_comp(self, kind, f, cond=None, key=None):
        if kind == "dict":
            raise Unsupported("dict of lines")
        src = self.sym_filter(cond) if cond is not None else self
        if cond is None:
            src.plain()
        w = self.doc.w
        e, v = w.generic(src.pred, lambda x: f(elem(x)))
        if type(v) is Text and z3.eq(v.z, TEXT(e)):
            if kind == "set":
                return Mapped(src.plain(), elem)
            r = Lines(src.doc, src.kept)
            return r
        return Mapped(src.plain(), lambda x: f(elem(x)))

    def sym_join(self, sep):
        if sep != "":
            raise Unsupported("joined by something")
        return Content(self.copy())

    def loop(self, *a):
        raise Unsupported("loop over lines")

    sym_loop = loop

    # -- what a text of these lines contains (m: predicate over texts)
    def holds(self, m):
        """Condition-free decision (both explored): some line satisfies m."""
        if any(bool(SymBool(m(t.z))) for t in self.added):
            return True
        P = self.pred
        return Nodes(lambda x: z3.And(P(x), m(TEXT(x))), "matching").witness() is not None

    def same_text(self):
        """The text is the one of the document."""
        if self.ended or self.added:
            return False
        if self.kept is None:
            return True
        P, K = self.doc.P, self.kept
        return Nodes(lambda x: z3.And(P(x), z3.Not(K(x))), "removed").witness() is None      # no line is empty


class Content(Opaque):
    """A text given by lines."""
    __class__ = property(lambda self: str)

    def __init__(self, lines):
        self.lines = lines

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower() not in ("utf-8", "utf8") or errors != "surrogateescape":
            raise Unsupported("encoding that may fail")
        return Data(self.lines)

    def __eq__(self, o):
        raise Unsupported("comparing texts")

    __hash__ = None


class Original(Opaque):
    """The decoded text of the file."""
    __class__ = property(lambda self: str)

    def __init__(self, doc):
        self.doc = doc

    def __eq__(self, o):
        raise Unsupported("comparing texts")

    __hash__ = None


class Data(Opaque):
    """The content of a file."""
    __class__ = property(lambda self: bytes)

    def __init__(self, lines):
        self.lines = lines

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower() not in ("utf-8", "utf8") or errors != "surrogateescape" or self.lines.kept is not None or self.lines.ended or self.lines.added:
            raise Unsupported("decoding that may fail")
        return Original(self.lines.doc)

    def __eq__(self, o):
        o = force(o)
        if self is o:
            return True
        if type(o) is bytes and o == b"":
            return not bool(self.lines)
        if type(o) is not Data or o.lines.doc is not self.lines.doc:
            raise Unsupported("comparing contents")
        a, b = self.lines, o.lines
        if b.kept is None and not b.ended and not b.added:
            return a.same_text()
        if a.kept is None and not a.ended and not a.added:
            return b.same_text()
        raise Unsupported("comparing contents")

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class AnyLine(Line):
    """Any file, any line, any pattern."""
    name = "line (any file)"
    prove = True
    enum = samples = 0
    symbolic_only = True
    assumes = Line.assumes + ["line: io.StringIO(text, newline='\\n') gives the lines of the text, each but the last ending in a line feed; a line ending is whitespace; "
                              "the backup's name is that of another file; decoding and encoding with surrogateescape are inverse"]

    def args(self):
        c = self.ctx
        self.common()
        self.kw = {}
        self.gw = GraphWorld(c)
        gw = self.gw

        def ensure(label, cond, detail=None):
            cond = force(cond) if not isinstance(cond, bool) else cond
            gw.ensure(label, sym.truth(cond) if isinstance(cond, sym.Sym) else z3.BoolVal(bool(cond)))
        c.ensure = ensure
        self.line = Text(z3.Const("given", OBJ))
        self.kw["present"] = self.present = c.bool("present")
        self.present = self.kw["present"] = bool(self.present)
        self.regex = self.kw["regex"] = c.choice("regex", [None, "pattern"])
        if self.regex is not None:
            self.regex = self.kw["regex"] = c.str("regex")
        self.ws = self.kw["ignore_whitespace"] = c.choice("ignore_whitespace", [True, False])
        self.backup = self.kw["backup"] = c.choice("backup", [False, True, "old.bak"])
        self.pos = [self.path, self.line]
        if self.backup is True:
            c.path_facts = True
            c.axiom(sym.ufn("path_basename", sym.S, sym.S)(sym.sval("/tmp")) == sym.sval("tmp"))
            rt.call(os.path.basename, self.path)
        if type(self.backup) is str:
            other = rt.call(os.path.join, rt.call(os.path.dirname, self.path), self.backup)
            c.assume(other != self.path)
            c.assume(other != "/tmp")
        self.m = self.matcher()
        if self.regex is not None and self.present:
            c.assume(SymBool(self.m(self.line.z)))
        self.doc = Doc(gw)
        rt.EXTERNALS[io.StringIO] = self.stringio
        rt.EXTERNALS[re.search] = self.search
        rt.CONTRACTS[("fora.operations.api", "Operation.diff")] = lambda f, *a, **k: None

    def matcher(self):
        given = self.line.z
        if self.regex is not None:
            return lambda t: FOUND(core_of(t))
        if self.ws:
            return lambda t: strip(t) == strip(given)
        return lambda t: core_of(t) == core_of(given)

    def stringio(self, text, newline="\n"):
        if type(text) is not Original or newline != "\n":
            raise Unsupported("io.StringIO")
        return Lines(text.doc)

    def search(self, pattern, text, flags=0):
        if pattern is not self.regex or type(text) is not Text or flags:
            raise Unsupported("re.search")
        return Found(FOUND(text.z))

    def prepare(self):
        FileBase.prepare(self)
        o = self.w.at(self.path)
        if o.type == "file":
            o.content = Data(Lines(self.doc))
        self.w.types = [None]
        self.known = len(self.w.entries)

    def hint_content(self):
        return None

    def attrs_kept(self, before, after):
        if before.type is None:
            m, u, g = self.eff
            return sym.conj(after.mode == m, after.owner == u, after.group == g)
        return sym.conj(after.mode % 1024 == before.mode % 1024, after.owner == before.owner, after.group == before.group)

    def all(self, P):
        return P(self.gw.node("any"))

    def desired(self, before, after):
        if self.present:
            if after.type != "file":
                return False
        elif before.type is None:
            return after.type is None and len(self.w.entries) == self.known
        if type(after.content) is not Data:
            raise Unsupported("content")
        m, doc = self.m, self.doc
        new = after.content.lines
        P, kept = doc.P, new.pred
        every = lambda f: SymBool(self.all(f))
        had = before.type is not None and Lines(doc).holds(m)
        if self.present and not had:
            last = doc.last() if before.type is not None else None
            texts = len(new.added) == 1 and SymBool(new.added[0].z == NL(self.line.z))
            keeps = every(lambda x: z3.Implies(P(x), kept(x))) if before.type is not None else True
            ends = True if last is None or new.ended else SymBool(ENDED(TEXT(last.z)))
            once = True if last is None or not new.ended else SymBool(z3.Not(ENDED(TEXT(last.z))))
            ok = [texts, keeps, ends, once]
        elif self.present:
            ok = [not new.added and not new.ended, every(lambda x: z3.Implies(P(x), kept(x)))]
        else:
            ok = [not new.added and not new.ended, every(lambda x: z3.Implies(P(x), kept(x) == z3.Not(m(TEXT(x)))))]
        ok = sym.conj(*ok, self.attrs_kept(before, after))
        if not self.backup or before.type is None or bool(before.content == after.content):
            return sym.conj(ok, len(self.w.entries) == self.known)
        if len(self.w.entries) != self.known + 1:
            return False
        p, o = self.w.entries[-1]
        if self.backup is True:
            named = p.startswith(rt.call(os.path.join, rt.call(os.path.dirname, self.path), rt.call(os.path.basename, self.path)) + ".")
        else:
            named = p == rt.call(os.path.join, rt.call(os.path.dirname, self.path), self.backup)
        return sym.conj(ok, named, o.type == "file" and o.content == before.content)

    def steady(self, o):
        if o.type is None:
            return not self.present
        return o.content.lines.holds(self.m) == self.present

    def describes(self, st, d, before):
        has = st.type == "file" and st.content.lines.holds(self.m)
        v = d.get("line_present")
        return v is not None and v == has


class Found(SymBool):
    """A match, or None."""
    __slots__ = ()

    def sym_is_none(self):
        return sym.neg(SymBool(self.z))


SCENARIOS = [AnyLine]
