"""Symbolic values.  Each class answers isinstance() like the Python type it stands for."""
import re

import z3

from . import core
from .core import Unsupported

OBJ = z3.DeclareSort("Obj")


def sval(s):
    return z3.StringVal(s)


def bval(b):
    return z3.StringVal(b.decode("latin-1"))


class Sym:
    __slots__ = ()

    def __hash__(self):
        c = core.cur()
        if c is not None and c.allow_hash:
            return 0
        raise Unsupported(f"hash of a symbolic {type(self).__name__}")

    def __str__(self):
        raise Unsupported(f"str() of {type(self).__name__} in native code")

    def __format__(self, spec):
        raise Unsupported(f"format() of {type(self).__name__} in native code")

    def __reduce__(self):
        raise Unsupported("copying a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _cls(t):
    return property(lambda self: t)


class SymBool(Sym):
    __slots__ = ("z",)
    __class__ = _cls(bool)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return core.cur().branch(self.z)

    def __eq__(self, o):
        o = force(o)
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if isinstance(o, bool):
            return SymBool(self.z if o else z3.Not(self.z))
        if isinstance(o, (SymInt, int)):
            return SymInt(z3.If(self.z, 1, 0)) == o
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __and__(self, o):
        return SymBool(z3.And(self.z, core.to_z3bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, core.to_z3bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    __hash__ = Sym.__hash__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return f"SymBool({self.z})"


def neg(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.z))
    return not x


def conj(*xs):
    return SymBool(z3.And([core.to_z3bool(x) for x in xs])) if core.cur().symbolic else all(xs)


def disj(*xs):
    return SymBool(z3.Or([core.to_z3bool(x) for x in xs])) if core.cur().symbolic else any(xs)


def implies(a, b):
    return disj(neg(a) if isinstance(a, (SymBool, bool)) else not a, b)


class SymInt(Sym):
    __slots__ = ("z",)
    __class__ = _cls(int)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return core.cur().branch(self.z != 0)

    def _o(self, o):
        o = force(o)
        if type(o) is bool:
            return z3.IntVal(int(o))
        if type(o) is int:
            return z3.IntVal(o)
        if isinstance(o, SymInt) and type(o) is SymInt:
            return o.z
        if type(o) is SymBool:
            return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
        return None

    def __eq__(self, o):
        z = self._o(o)
        return False if z is None else SymBool(self.z == z)

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def _cmp(self, o, f):
        z = self._o(o)
        if z is None:
            return NotImplemented
        return SymBool(f(self.z, z))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f):
        z = self._o(o)
        if z is None:
            return NotImplemented
        return SymInt(z3.simplify(f(self.z, z)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.z)

    def __and__(self, o):
        return core.cur().fn("int_and", "int", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return core.cur().fn("int_or", "int", self, o)

    __ror__ = __or__

    def __mod__(self, o):
        return self._ar(o, lambda a, b: a % b)

    def __floordiv__(self, o):
        z = self._o(o)
        if z is None or not z3.is_int_value(z) or z.as_long() <= 0:
            raise Unsupported("symbolic floor division")
        return SymInt(self.z / z)

    def __index__(self):
        raise Unsupported("a symbolic int used as an index or size in native code")

    __int__ = __index__

    def __repr__(self):
        return f"SymInt({self.z})"


class Atom:
    __slots__ = ("z", "tag")

    def __init__(self, z, tag=None):
        self.z = z
        self.tag = tag

    def __repr__(self):
        return str(self.z)


def _norm(parts, empty):
    out = []
    for p in parts:
        if not isinstance(p, Atom):
            if len(p) == 0:
                continue
            if out and not isinstance(out[-1], Atom):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return tuple(out)


class _Text(Sym):
    __slots__ = ("parts", "_z", "tag")
    EMPTY = ""

    def __init__(self, parts, tag=None):
        self.parts = _norm(parts, self.EMPTY)
        self._z = None
        self.tag = tag

    @property
    def z(self):
        if self._z is None:
            zs = [p.z if isinstance(p, Atom) else self.lit(p) for p in self.parts]
            self._z = self.lit(self.EMPTY) if not zs else zs[0] if len(zs) == 1 else z3.Concat(*zs)
        return self._z

    def _o(self, o):
        o = force(o)
        if type(o) is type(self):
            return o
        if isinstance(o, type(self.EMPTY)) and not isinstance(o, Sym):
            return type(self)((o,))
        return None

    def __eq__(self, o):
        o = self._o(o)
        if o is None:
            return False
        if o is self:
            return True
        a, b = list(self.parts), list(o.parts)
        # strip common syntactic prefix/suffix
        same = lambda x, y: (isinstance(x, Atom) and isinstance(y, Atom) and x.z.eq(y.z)) or (not isinstance(x, Atom) and not isinstance(y, Atom) and x == y)
        while a and b and same(a[0], b[0]):
            a.pop(0)
            b.pop(0)
        while a and b and same(a[-1], b[-1]):
            a.pop()
            b.pop()
        if not a and not b:
            return True
        if a and b:
            x, y = a[0], b[0]
            if not isinstance(x, Atom) and not isinstance(y, Atom) and not x.startswith(y) and not y.startswith(x):
                return False
            x, y = a[-1], b[-1]
            if not isinstance(x, Atom) and not isinstance(y, Atom) and not x.endswith(y) and not y.endswith(x):
                return False
        if isinstance(self, SymBytes) and (not a or not b):
            rest = a or b
            if any(not isinstance(p, Atom) for p in rest):
                return False
            return SymBool(z3.And([self.atom_len(p) == 0 for p in rest]))
        A, B = type(self)(tuple(a)), type(self)(tuple(b))
        return SymBool(A.z == B.z)

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        p = self._o(o)
        if p is None:
            raise TypeError(f"can only concatenate {type(self.EMPTY).__name__}")
        return type(self)(self.parts + p.parts)

    def __radd__(self, o):
        p = self._o(o)
        if p is None:
            raise TypeError(f"can only concatenate {type(self.EMPTY).__name__}")
        return type(self)(p.parts + self.parts)

    def sym_len(self):
        r = z3.IntVal(0)
        k = 0
        for p in self.parts:
            if isinstance(p, Atom):
                r = r + self.atom_len(p)
            else:
                k += len(p)
        z = z3.simplify(r + k)
        return z.as_long() if z3.is_int_value(z) else SymInt(z)

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, SymInt):
            raise Unsupported("native len() of symbolic text")
        return n

    def __bool__(self):
        if any(not isinstance(p, Atom) for p in self.parts):
            return True
        if isinstance(self, SymBytes):
            return core.cur().branch(z3.Or([self.atom_len(p) != 0 for p in self.parts]))
        return core.cur().branch(self.z != self.lit(self.EMPTY))

    @staticmethod
    def atom_len(p):
        return z3.Length(p.z)

    def startswith(self, p, *rest):
        if rest:
            raise Unsupported("startswith with bounds")
        if isinstance(p, tuple):
            r = False
            for x in p:
                r = disj(r, self.startswith(x))
            return r
        q = self._o(p)
        if q is None:
            raise TypeError("startswith")
        if self.parts and not isinstance(self.parts[0], Atom) and len(q.parts) <= 1 and (not q.parts or not isinstance(q.parts[0], Atom)):
            lit = q.parts[0] if q.parts else self.EMPTY
            head = self.parts[0]
            if len(head) >= len(lit):
                return head.startswith(lit)
            if not lit.startswith(head):
                return False
        return SymBool(z3.PrefixOf(q.z, self.z))

    def endswith(self, p, *rest):
        if rest:
            raise Unsupported("endswith with bounds")
        if isinstance(p, tuple):
            r = False
            for x in p:
                r = disj(r, self.endswith(x))
            return r
        q = self._o(p)
        if q is None:
            raise TypeError("endswith")
        if self.parts and not isinstance(self.parts[-1], Atom) and len(q.parts) == 1 and not isinstance(q.parts[0], Atom) and len(self.parts[-1]) >= len(q.parts[0]):
            return self.parts[-1].endswith(q.parts[0])
        a, b = list(self.parts), list(q.parts)
        while a and b:          # compare from the end as far as the structure tells
            x, y = a[-1], b[-1]
            if isinstance(x, Atom) and isinstance(y, Atom) and x.z.eq(y.z):
                a.pop()
                b.pop()
            elif isinstance(x, Atom) or isinstance(y, Atom):
                break
            else:
                if not x.endswith(y) and not y.endswith(x):
                    return False
                n = min(len(x), len(y))
                a[-1], b[-1] = x[:len(x) - n], y[:len(y) - n]
                a, b = [p for p in a if isinstance(p, Atom) or p], [p for p in b if isinstance(p, Atom) or p]
        if not b:
            return True
        if not a and any(not isinstance(p, Atom) for p in b):
            return False
        return SymBool(z3.SuffixOf(type(self)(tuple(b)).z, type(self)(tuple(a)).z))

    def contains(self, p):
        q = self._o(p)
        if q is None:
            raise TypeError("in")
        if len(q.parts) == 1 and not isinstance(q.parts[0], Atom):
            for x in self.parts:
                if not isinstance(x, Atom) and q.parts[0] in x:
                    return True
        if len(q.parts) == 1 and any(isinstance(x, Atom) and x.z.eq(q.parts[0].z) for x in self.parts if isinstance(q.parts[0], Atom)):
            return True
        if isinstance(self, SymStr) and len(q.parts) == 1 and not isinstance(q.parts[0], Atom) and len(q.parts[0]) == 1:
            zs = [z3.Contains(x.z, q.z) for x in self.parts if isinstance(x, Atom)]
            return SymBool(z3.Or(zs)) if zs else False
        return SymBool(z3.Contains(self.z, q.z))

    def __contains__(self, p):
        return bool(self.contains(p))

    def find(self, p, *rest):
        q = self._o(p)
        if rest or q is None:
            raise Unsupported("find with bounds")
        lit = q.concrete()
        if isinstance(self, SymStr) and lit is not None and len(lit) == 1:
            acc = z3.IntVal(0)
            for x in self.parts:
                if isinstance(x, Atom):
                    if not core.cur().must(z3.Not(z3.Contains(x.z, q.z))):
                        break
                    acc = acc + self.atom_len(x)
                elif lit in x:
                    z = z3.simplify(acc + x.index(lit))
                    return z.as_long() if z3.is_int_value(z) else SymInt(z)
                else:
                    acc = acc + len(x)
            else:
                return -1
        return SymInt(z3.IndexOf(self.z, q.z, 0))

    def index(self, p, *rest):
        r = self.find(p, *rest)
        if bool(r < 0):
            raise ValueError("substring not found")
        return r

    def partition(self, sep):
        if not bool(self.contains(sep)):
            return (self, self.EMPTY, self.EMPTY)
        pos = self.find(sep)
        return (simp(self[:pos]), sep, simp(self[pos + len(sep):]))

    def removeprefix(self, p):
        return simp(self[len(p):]) if bool(self.startswith(p)) else self

    def _split_at(self, pos):
        """The pieces before and after a position at a known place, else None."""
        acc, left = z3.IntVal(0), []
        for i, x in enumerate(self.parts):
            d = z3.simplify(pos - acc)
            if z3.is_int_value(d):
                d = d.as_long()
                if d == 0:
                    return tuple(left), self.parts[i:]
                if not isinstance(x, Atom) and 0 < d <= len(x):
                    return tuple(left) + (x[:d],), (x[d:],) + self.parts[i + 1:]
            left.append(x)
            acc = acc + (self.atom_len(x) if isinstance(x, Atom) else len(x))
        d = z3.simplify(pos - acc)
        return (tuple(left), ()) if z3.is_int_value(d) and d.as_long() >= 0 else None

    def getitem(self, k):
        k = force(k)
        n = self.sym_len()
        nz = n.z if isinstance(n, SymInt) else z3.IntVal(n)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("slice step")
            lo = 0 if k.start is None else force(k.start)
            hi = n if k.stop is None else force(k.stop)
            # whole-value fast path
            if type(lo) is int and lo == 0 and (k.stop is None or (isinstance(hi, SymInt) and z3.simplify(hi.z).eq(z3.simplify(nz)))):
                return self
            if type(lo) is int and lo >= 0 and k.stop is None and self.parts and not isinstance(self.parts[0], Atom) and len(self.parts[0]) >= lo:
                return type(self)((self.parts[0][lo:],) + self.parts[1:])
            if type(lo) is int and lo == 0 and type(hi) is int and hi >= 0 and self.parts and not isinstance(self.parts[0], Atom) and len(self.parts[0]) >= hi:
                return type(self)((self.parts[0][:hi],))

            if isinstance(self, SymBytes):
                lz = lift(lo)
                hz = nz if k.stop is None else lift(hi)
                m = core.cur().must
                if m(lz == 0) and m(hz >= nz):
                    return self
                if not m(z3.And(lz >= 0, hz >= 0)):
                    raise Unsupported("slice of symbolic bytes with a possibly negative bound")
                e = ufn("bytes_slice", S, I, I, S)(self.z, lz, hz)
                hc = z3.If(hz > nz, nz, hz)
                core.cur().axiom(BLEN(e) == z3.If(hc > lz, hc - lz, 0))
                return SymBytes((Atom(e),))

            if isinstance(self, SymStr):
                # cut at places that are known structurally
                pz = lambda i: i.z if isinstance(i, SymInt) else nz + i if i < 0 else z3.IntVal(i)
                a = ((), self.parts) if k.start is None else self._split_at(pz(lo))
                if a is not None:
                    if k.stop is None:
                        return type(self)(a[1])
                    if k.start is None:
                        b = self._split_at(pz(hi))
                        if b is not None:
                            return type(self)(b[0])

            def clamp(i):
                z = i.z if isinstance(i, SymInt) else z3.IntVal(i)
                z = z3.If(z < 0, z + nz, z)
                return z3.If(z < 0, z3.IntVal(0), z3.If(z > nz, nz, z))
            lz, hz = clamp(lo), clamp(hi)
            return type(self)((Atom(z3.simplify(z3.SubString(self.z, lz, z3.If(hz > lz, hz - lz, z3.IntVal(0))))),))
        if isinstance(k, int):
            kz = k.z if isinstance(k, SymInt) else z3.IntVal(k)
            idx = z3.If(kz < 0, kz + nz, kz)
            if core.cur().branch(z3.And(idx >= 0, idx < nz)):
                if isinstance(self, SymBytes):
                    raise Unsupported("indexing symbolic bytes")
                return type(self)((Atom(z3.simplify(z3.SubString(self.z, idx, 1))),))
            raise IndexError("string index out of range")
        raise TypeError("indices")

    __getitem__ = getitem

    def __iter__(self):
        raise Unsupported("iterating symbolic text")

    def concrete(self):
        """The Python value when no symbolic part is left, else None."""
        if not self.parts:
            return self.EMPTY
        if len(self.parts) == 1 and not isinstance(self.parts[0], Atom):
            return self.parts[0]
        return None

    def __repr__(self):
        return type(self).__name__ + "(" + "+".join(repr(p) for p in self.parts) + ")"


def ufn(name, *sorts):
    return z3.Function(name, *sorts)


S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
UTF8 = ufn("utf8_encode", S, S)
UNUTF8 = ufn("utf8_decode", S, S)
ENCODABLE = ufn("utf8_encodable", S, B)
DECODABLE = ufn("utf8_decodable", S, B)
DECODABLE_SP = ufn("utf8_decodable_surrogatepass", S, B)
INT2STR = ufn("str_of_int", I, S)
BLEN = ufn("byte_length", S, I)
STR2INT = {}
OCTSTR = ufn("oct_digits", I, S)


class SymStr(_Text):
    __slots__ = ()
    EMPTY = ""
    __class__ = _cls(str)

    @staticmethod
    def lit(s):
        return sval(s)

    def __lt__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return SymBool(self.z < q.z)

    def __le__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return SymBool(self.z <= q.z)

    def __gt__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return SymBool(q.z < self.z)

    def __ge__(self, o):
        q = self._o(o)
        if q is None:
            return NotImplemented
        return SymBool(q.z <= self.z)

    def _uf(self, name):
        c = self.concrete()
        if c is not None:
            return getattr(c, name)()
        return SymStr((Atom(ufn("str_" + name, S, S)(self.z)),))

    def strip(self, *a):
        if a:
            raise Unsupported("strip(chars)")
        if isinstance(self.tag, tuple) and self.tag[0] == "stripped":
            return self
        if self._words():
            parts = list(self.parts)
            while parts and not isinstance(parts[0], Atom):
                parts[0] = parts[0].lstrip()
                if parts[0]:
                    break
                parts.pop(0)
            while parts and not isinstance(parts[-1], Atom):
                parts[-1] = parts[-1].rstrip()
                if parts[-1]:
                    break
                parts.pop()
            return simp(SymStr(tuple(parts)))
        r = self._uf("strip")
        return r

    def _words(self):
        """Every symbolic part is declared a non-empty word without white space."""
        return all(not isinstance(p, Atom) or (isinstance(p.tag, tuple) and p.tag[0] == "word") for p in self.parts)

    def _cut(self, cut):
        """Fields between separators, which only occur in literal parts."""
        fields, cur_ = [], []
        for p in self.parts:
            if isinstance(p, Atom):
                cur_.append(p)
                continue
            pieces = cut(p)
            cur_.append(pieces[0])
            for x in pieces[1:]:
                fields.append(cur_)
                cur_ = [x]
        fields.append(cur_)
        return [SymStr(tuple(f)) for f in fields]

    def zfill(self, n):
        """Left padding with zeros: same value for a non-negative number (assumed contract of str.zfill)."""
        if type(n) is not int:
            raise Unsupported("zfill")
        e = ufn(f"zfill_{n}", S, S)(self.z)
        ctx = core.cur()
        i8, v8 = ufn("int_of_str_8", S, I), ufn("int_valid_8", S, B)
        ctx.axiom(z3.Implies(z3.And(v8(self.z), i8(self.z) >= 0), z3.And(v8(e), i8(e) == i8(self.z), z3.PrefixOf(sval("-"), e) == z3.PrefixOf(sval("-"), self.z))))
        return SymStr((Atom(e, ("zfill", n, self)),))

    def rjust(self, n, fill=" "):
        if fill == "0":
            return self.zfill(n)
        raise Unsupported("rjust")

    def lower(self):
        return self._uf("lower")

    def upper(self):
        return self._uf("upper")

    def capitalize(self):
        return self._uf("capitalize")

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported(f"encode({encoding})")
        ctx = core.cur()
        if errors not in ("strict", "surrogatepass"):
            raise Unsupported(f"encode errors={errors}")
        if errors == "strict":
            # utf-8 encoding fails exactly on lone surrogates (assumed contract of str.encode)
            if not bool(SymBool(ENCODABLE(self.z))):
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
        e = UTF8(self.z)
        ctx.axiom(UNUTF8(e) == self.z)
        ctx.axiom(DECODABLE(e) == ENCODABLE(self.z))
        ctx.axiom(DECODABLE_SP(e))
        ctx.axiom((e == sval("")) == (self.z == sval("")))
        return SymBytes((Atom(e, ("utf8", self)),))

    def split(self, sep=None, maxsplit=-1):
        if isinstance(self.tag, tuple) and self.tag[0] == "join" and sep == self.tag[1] and maxsplit == -1:
            return list(self.tag[2])
        if sep is None:
            if maxsplit != -1 or not self._words():
                raise Unsupported("split()")
            return [simp(f) for f in self._cut(lambda p: re.split(r"\s", p)) if f.parts]
        # atoms are declared separator-free by the harness (see SymCtx.nosep)
        if maxsplit != -1 and maxsplit < 0:
            raise Unsupported("split")
        fields, cur_, n = [], [], 0
        for p in self.parts:
            if isinstance(p, Atom):
                if (maxsplit == -1 or n < maxsplit) and not core.cur().must(z3.Not(z3.Contains(p.z, sval(sep)))):
                    if not fields:
                        raise Unsupported("split of text that may contain the separator")
                    return PartialSplit(simp(SymStr(tuple(f))) for f in fields)
                cur_.append(p)
                continue
            rest = p
            while sep in rest and (maxsplit == -1 or n < maxsplit):
                a, rest = rest.split(sep, 1)
                cur_.append(a)
                fields.append(cur_)
                cur_ = []
                n += 1
            cur_.append(rest)
        fields.append(cur_)
        return [simp(SymStr(tuple(f))) for f in fields]

    def join(self, items):
        return join(self, items)

    def replace(self, a, b):
        raise Unsupported("replace")

    def splitlines(self, *a):
        if a or not self._words():
            raise Unsupported("splitlines of symbolic text")
        r = [simp(f) for f in self._cut(lambda p: p.split("\n"))]
        return r if r[-1] != "" or isinstance(r[-1], Sym) else r[:-1]

    def isdigit(self):
        return SymBool(ufn("str_isdigit", S, B)(self.z))

    def format(self, *a, **k):
        raise Unsupported("str.format")


class PartialSplit(list):
    """A split whose first fields are known."""

    def __getitem__(self, k):
        if type(k) is int and 0 <= k < list.__len__(self):
            return list.__getitem__(self, k)
        raise Unsupported("split of text that may contain the separator")

    def _no(self, *a, **k):
        raise Unsupported("split of text that may contain the separator")

    __len__ = __iter__ = __contains__ = __eq__ = __add__ = __bool__ = _no


class SymBytes(_Text):
    __slots__ = ()
    EMPTY = b""
    __class__ = _cls(bytes)

    @staticmethod
    def lit(b):
        return bval(b)

    @staticmethod
    def atom_len(p):
        """Byte length, as an uninterpreted function: keeps huge buffers out of the string solver."""
        e = BLEN(p.z)
        core.cur().axiom(z3.And(e >= 0, e < 2**63, (e == 0) == (p.z == bval(b""))))   # len() <= sys.maxsize
        return e

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported(f"decode({encoding})")
        c = self.concrete()
        if c is not None:
            return c.decode(encoding, errors)
        if len(self.parts) == 1 and isinstance(self.parts[0].tag, tuple) and self.parts[0].tag[0] == "utf8" and len(self.parts[0].tag) > 2:
            return self.parts[0].tag[1]         # declared valid by the harness
        if errors in ("strict", "surrogatepass"):
            ok = DECODABLE if errors == "strict" else DECODABLE_SP
            if not bool(SymBool(ok(self.z))):
                raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid")
            if len(self.parts) == 1 and isinstance(self.parts[0].tag, tuple) and self.parts[0].tag[0] in ("utf8", "fsenc"):
                return self.parts[0].tag[1]
            return SymStr((Atom(UNUTF8(self.z)),))
        if len(self.parts) == 1 and isinstance(self.parts[0].tag, tuple) and self.parts[0].tag[0] == "utf8" and core.cur().must(ENCODABLE(self.parts[0].tag[1].z)):
            return self.parts[0].tag[1]
        if errors == "surrogateescape" and len(self.parts) == 1 and isinstance(self.parts[0].tag, tuple) and self.parts[0].tag[0] == "fsenc":
            return self.parts[0].tag[1]
        return SymStr((Atom(ufn(f"utf8_decode_{errors}", S, S)(self.z)),))

    def strip(self, *a):
        raise Unsupported("bytes.strip")

    def hex(self):
        return SymStr((Atom(ufn("hex", S, S)(self.z)),))


def join(sep, items):
    items = [force(i) for i in items]
    parts = []
    for n, i in enumerate(items):
        if n:
            parts.extend(sep.parts if isinstance(sep, _Text) else (sep,))
        if isinstance(i, _Text):
            parts.extend(i.parts)
        elif isinstance(i, (str, bytes)):
            parts.append(i)
        else:
            raise TypeError("sequence item: expected str instance")
    r = SymStr(tuple(parts))
    return SymStr(tuple(parts), tag=("join", sep, items))


def simp(t):
    """Concrete text when nothing symbolic is left."""
    if isinstance(t, _Text):
        c = t.concrete()
        return t if c is None else c
    return t


class SymObj(Sym):
    """An arbitrary Python object of which only identity/equality matters."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        o = force(o)
        if type(o) is SymObj:
            return SymBool(self.z == o.z)
        return False

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return core.cur().branch(ufn("obj_truth", OBJ, B)(self.z))

    def __repr__(self):
        return f"SymObj({self.z})"


class SymOpt(Sym):
    """None or a value, undecided until the code asks."""
    __slots__ = ("none", "mk", "state", "val")

    def __init__(self, none, mk):
        object.__setattr__(self, "none", none)
        object.__setattr__(self, "mk", mk)
        object.__setattr__(self, "state", None)
        object.__setattr__(self, "val", None)

    def is_none(self):
        if self.state is None:
            n = core.cur().branch(self.none)
            object.__setattr__(self, "state", n)
            if not n:
                object.__setattr__(self, "val", self.mk())
        return self.state

    def force(self):
        return None if self.is_none() else self.val

    @property
    def __class__(self):
        v = self.force()
        return type(None) if v is None else v.__class__

    def __bool__(self):
        return bool(self.force())

    def __getattr__(self, name):
        return getattr(self.force(), name)

    def __repr__(self):
        return "SymOpt(" + ("?" if self.state is None else repr(None if self.state else self.val)) + ")"


def _fwd(name):
    def f(self, *a):
        import operator
        v = self.force()
        return getattr(operator, name)(v, *a)
    return f


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__sub__", "__mul__", "__and__", "__or__",
           "__getitem__", "__mod__"):
    def _mk(n):
        import operator
        op = getattr(operator, n)

        def f(self, o):
            return op(self.force(), force(o))
        return f
    setattr(SymOpt, _n, _mk(_n))


def _radd(self, o):
    return o + self.force()


SymOpt.__radd__ = _radd
SymOpt.__hash__ = lambda self: hash(self.force())
SymOpt.__iter__ = lambda self: iter(self.force())
SymOpt.__len__ = lambda self: len(self.force())
SymOpt.__contains__ = lambda self, x: x in self.force()


def force(x):
    if type(x) is SymOpt:
        return x.force()
    return x


def lift(x):
    x = force(x)
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, str):
        return sval(x)
    if isinstance(x, bytes):
        return bval(x)
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported(f"cannot lift {type(x).__name__}")


def truth(x):
    """z3 truth value of a symbolic value, without branching."""
    x = force(x)
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, SymInt):
        return x.z != 0
    if isinstance(x, SymBytes):
        if any(not isinstance(p, Atom) for p in x.parts):
            return z3.BoolVal(True)
        return z3.Or([x.atom_len(p) != 0 for p in x.parts])
    if isinstance(x, _Text):
        return x.z != x.lit(x.EMPTY)
    return z3.BoolVal(bool(x))


_ESC = re.compile(r"\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})")


def from_z3(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_string_value(v):
        return _ESC.sub(lambda m: chr(int(m.group(1) or m.group(2), 16)), v.as_string())
    return str(v)


def str_of_int(x):
    ctx = core.cur()
    e = INT2STR(x.z)
    ctx.axiom(ufn("int_of_str_10", S, I)(e) == x.z)
    ctx.axiom(ufn("int_valid_10", S, B)(e))
    ctx.axiom(z3.Length(e) > 0)
    return SymStr((Atom(e, ("int", x)),))


def int_of_str(s, base):
    """int(s, base): value and validity are functions of the text (assumed contract of int())."""
    if isinstance(s, (str, bytes)) and not isinstance(s, Sym):
        return int(s, base)
    if base == 10 and len(s.parts) == 1 and isinstance(s.parts[0], Atom) and isinstance(s.parts[0].tag, tuple) and s.parts[0].tag[0] == "int":
        return s.parts[0].tag[1]
    if s.parts and not isinstance(s.parts[0], Atom) and s.parts[0][:1] in "abcdefghijklmnopqrstuvwxyz" and base <= 10:
        raise ValueError("invalid literal for int()")
    if bool(SymBool(ufn(f"int_valid_{base}", S, B)(s.z))):
        return SymInt(ufn(f"int_of_str_{base}", S, I)(s.z))
    raise ValueError("invalid literal for int()")


def oct_digits(x):
    """oct(x)[2:] for x >= 0; injective: int(., 8) is its inverse (assumed contract of oct())."""
    e = OCTSTR(x.z)
    ctx = core.cur()
    ctx.axiom(z3.Implies(x.z >= 0, z3.And(ufn("int_of_str_8", S, I)(e) == x.z, ufn("int_valid_8", S, B)(e), z3.Length(e) > 0, z3.Not(z3.PrefixOf(sval("-"), e)))))
    return Atom(e, ("oct", x))
