"""Runtime the rewritten code calls into."""
import builtins
import functools
import inspect
import itertools
import os
import struct as _struct
import sys
import types

from . import core, sym
from .core import Abort, Unsupported, PathEnd   # noqa: F401 (Abort used by rewritten code)
from .sym import Sym, SymBool, SymInt, SymStr, SymBytes, SymOpt, _Text, force

# callee -> model; installed by a harness (assumed contracts of the environment,
# and contracts of repo functions verified elsewhere)
EXTERNALS = {}
CONTRACTS = {}          # (module, qualname) -> callable(ctx, *args, **kw)
LOOPS = {}              # loop id -> LoopContract
INLINED = set()
DENY_MODULES = {"os", "posix", "subprocess", "pwd", "grp", "spwd", "shutil", "socket", "signal", "io", "_io", "glob", "tempfile"}
PURE = set()
import os as _os
import posixpath as _pp
for _n in ("join", "basename", "dirname", "normpath", "relpath", "splitext", "isabs", "split", "commonprefix", "normcase"):
    PURE.add(getattr(_pp, _n))
PURE.add(_os.strerror)
PURE.add(_os.fspath)
PURE.add(_os.fsencode)
PURE.add(_os.fsdecode)
import subprocess as _sp
PURE.update({_sp.CompletedProcess, _sp.list2cmdline})
ALLOW_REAL = set()      # real external functions a harness lets through


def issym(x):
    return issubclass(type(x), Sym)


def active():
    return core.CUR is not None


def is_(a, b):
    if type(a) is SymOpt and b is None:
        return a.is_none()
    if type(b) is SymOpt and a is None:
        return b.is_none()
    a, b = force(a), force(b)
    if b is None and hasattr(type(a), "sym_is_none"):
        return a.sym_is_none()
    if issym(a) and type(a) is SymBool and (b is True or b is False):
        return bool(a == b)
    if type(a) is sym.SymObj and type(b) is sym.SymObj:
        return bool(a == b)
    return a is b


def is_not(a, b):
    return not_(is_(a, b))


def not_(a):
    if issubclass(type(a), SymBool):
        return sym.neg(a)
    return not a


def has_sym(x, depth=3):
    if issym(x):
        return True
    if depth == 0:
        return False
    if type(x) in (list, tuple, set, frozenset, SortedSym):
        return any(has_sym(i, depth - 1) for i in x)
    if type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def in_(a, b):
    a, b = force(a), force(b)
    if not active():
        return a in b
    if getattr(type(b), "sym_graph", False):
        return b.sym_contains(a)
    if isinstance(b, _Text):
        return b.contains(a)
    if issym(a):
        if isinstance(b, (dict, set, frozenset, list, tuple)) or type(b).__name__ in ("dict_keys", "dict_values", "mappingproxy"):
            for k in b:
                if k == a:      # branches
                    return True
            return False
        if isinstance(b, str) and isinstance(a, _Text):
            return SymStr((b,)).contains(a)
        if isinstance(b, bytes) and isinstance(a, _Text):
            return SymBytes((b,)).contains(a)
        if hasattr(b, "sym_contains"):
            return b.sym_contains(a)
        return a in b
    if isinstance(b, (dict, set, frozenset)) and core.CUR.symbolic and any(issym(k) for k in b):
        for k in b:
            if k == a:
                return True
        return False
    if hasattr(b, "sym_contains"):
        return b.sym_contains(a)
    return a in b


def not_in(a, b):
    return not_(in_(a, b))


def _find_key(d, k):
    for x in d:
        if x is k:
            return x
    for x in d:
        if x == k:
            return x
    raise KeyError(k)


def getitem(o, k):
    o = force(o)
    k2 = k if isinstance(k, slice) else force(k)
    if not active() or getattr(type(o), "sym_graph", False):
        return o[k2]
    if isinstance(o, _Text):
        return sym.simp(o.getitem(k2))
    if type(o) is dict or isinstance(o, dict):
        if issym(k2) or (core.CUR.symbolic and any(issym(x) for x in o)):
            return o[_find_key(o, k2)] if not issym(k2) or True else None
    if isinstance(o, (list, tuple)) and isinstance(k2, SymInt):
        for i in range(len(o)):
            if k2 == i or k2 == i - len(o):
                return o[i]
        raise IndexError("list index out of range")
    return o[k2]


def setitem(o, k, v):
    o = force(o)
    k = k if isinstance(k, slice) else force(k)
    if active() and isinstance(o, dict) and not getattr(type(o), "sym_graph", False) and (issym(k) or (core.CUR.symbolic and any(issym(x) for x in o))):
        try:
            k = _find_key(o, k)
        except KeyError:
            pass
        core.CUR.allow_hash, saved = True, core.CUR.allow_hash
        try:
            o[k] = v
        finally:
            core.CUR.allow_hash = saved
        return
    o[k] = v


def mkset(items):
    """A set display or comprehension."""
    if active() and core.CUR.symbolic:
        return LSet(items)
    return set(items)


def mklist(items):
    """A list display."""
    if active() and getattr(core.CUR, "graph_world", None) is not None:
        from . import graphs
        return graphs.list_display(items)
    return items


def fstr(*parts):
    if not active() or not core.CUR.symbolic:
        return _fstr_native(parts)
    out, symbolic = [], False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        v = force(v)
        if has_sym(v) or _opaque_str(v):
            t = _to_text(v, conv)
            if spec:
                t = SymStr((sym.Atom(core.CUR.str("fmt").z),))
            out.extend(t.parts if isinstance(t, _Text) else (t,))
            symbolic = True
        else:
            out.append(_fstr_native([(v, conv, spec)]))
    if not symbolic:
        return "".join(out)
    return sym.simp(SymStr(tuple(out)))


def _fstr_native(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format(v, spec or ""))
    return "".join(out)


def _opaque_str(v):
    """Objects whose str() may embed symbolic values."""
    if isinstance(v, BaseException):
        return any(has_sym(a) for a in v.args) or any(has_sym(x) for x in vars(v).values())
    d = getattr(v, "__dict__", None)
    if isinstance(d, dict) and not isinstance(v, (type, types.ModuleType, types.FunctionType)):
        try:
            return any(has_sym(x) for x in d.values())
        except Exception:
            return False
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return any(has_sym(x) for x in v)
    return False


def _to_text(v, conv=-1):
    v = force(v)
    if conv in (-1, 115):
        if isinstance(v, SymStr):
            return v
        if isinstance(v, SymInt):
            return sym.str_of_int(v)
        if isinstance(v, SymBool):
            return "True" if v else "False"
        if isinstance(v, BaseException) and len(v.args) == 1 and type(v).__str__ in (BaseException.__str__, Exception.__str__, KeyError.__str__)[:2]:
            return _to_text(v.args[0]) if issym(v.args[0]) else str(v)
    if isinstance(v, SymBool):
        return "True" if v else "False"
    # opaque rendering: an unconstrained text
    return SymStr((sym.Atom(core.CUR.str("text").z),))


# -- iteration and loops -----------------------------------------------------
def iter_(x):
    x = force(x)
    if issym(x) and not hasattr(type(x), "sym_iter"):
        raise Unsupported(f"iterating {type(x).__name__}")
    return x


def comp_list(it, f, cond=None):
    it = force(it)
    if hasattr(it, "sym_comp"):
        return it.sym_comp("list", f, cond)
    if cond is not None:
        return [f(x) for x in iter_(it) if cond(x)]
    return [f(x) for x in iter_(it)]


def comp_dict(it, key, val, cond=None):
    it = force(it)
    if hasattr(it, "sym_comp") and getattr(type(it), "sym_graph", False):
        return it.sym_comp("dict", val, cond, key)
    if cond is not None:
        return {key(x): val(x) for x in iter_(it) if cond(x)}
    return {key(x): val(x) for x in iter_(it)}


class SymGen:
    """A generator expression over a symbolic range or sequence, not yet consumed."""

    def __init__(self, it, f, cond=None):
        self.it, self.f, self.cond = it, f, cond

    def __iter__(self):
        raise Unsupported("native iteration of a symbolic generator expression")


def comp_gen(it, f, cond=None):
    it = force(it)
    if hasattr(it, "sym_comp"):
        return SymGen(it, f, cond)
    it = iter(iter_(it))
    if cond is not None:
        return (f(x) for x in it if cond(x))
    return (f(x) for x in it)


def _list(*a):
    if a:
        x = force(a[0])
        if isinstance(x, SymGen):
            return x.it.sym_comp("list", x.f, x.cond)
        if hasattr(x, "sym_list"):
            return x.sym_list()
    return list(*a)


class _Undef:
    def __repr__(self):
        return "<unbound>"


UNDEF = _Undef()


def peek(th):
    try:
        return th()
    except (NameError, UnboundLocalError):
        return UNDEF


class PlainLoop:
    cut = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def head(self):
        return True


_PLAIN = PlainLoop(())


def loop_for(lid, it, reader, names):
    it = force(it)
    if hasattr(it, "sym_loop"):
        return it.sym_loop(lid, reader, names, LOOPS.get(lid))
    if issym(it):
        raise Unsupported(f"iterating {type(it).__name__}")
    return PlainLoop(it)


def loop_while(lid, reader, names):
    lc = LOOPS.get(lid)
    if lc is not None and active() and core.CUR.symbolic:
        return lc.start(reader, names)
    return _PLAIN


def loop_value(L, name):
    return L.value(name)


# -- calls ---------------------------------------------------------------------
def callm(obj, name, /, *args, **kw):
    if active() and core.CUR.symbolic:
        if type(obj) is SymOpt:
            obj = obj.force()
        if type(obj) is str and name == "join" and len(args) == 1 and not kw:
            items = force(args[0])
            if hasattr(type(items), "sym_join"):
                return items.sym_join(obj)
            if type(items) in (list, tuple):
                for i in items:
                    if hasattr(type(i), "sym_join_items"):
                        return i.sym_join_items(obj, items)
        if type(obj) is str and name in ("join", "format", "startswith", "endswith", "find", "split", "replace") and any(has_sym(a) for a in args):
            if name == "join":
                return sym.simp(sym.join(obj, list(args[0])))
            return getattr(SymStr((obj,)), name)(*args, **kw)
        if type(obj) is bytes and name == "join" and any(has_sym(a) for a in args):
            raise Unsupported("bytes.join")
    f = getattr(obj, name)
    return call(f, *args, **kw)


_CONT_METHODS = {"append", "extend", "insert", "pop", "add", "update", "get", "items", "keys", "values", "copy", "remove", "discard",
                 "setdefault", "clear", "sort", "index", "count", "union", "difference", "intersection", "issubset", "reverse", "__contains__",
                 "popitem", "isdisjoint", "issuperset", "with_traceback", "add_note", "__init__", "symmetric_difference",
                 "_replace", "_asdict", "_make", "__setitem__", "__getitem__", "__setattr__", "__getattribute__"}


def _visible(frame):
    while frame is not None and frame.f_code.co_filename.startswith(_HERE):
        frame = frame.f_back
    return frame


_HERE = os.path.dirname(os.path.abspath(__file__))
# the frames of this package do not exist for the code under contract
_FRAMES = {
    inspect.currentframe: lambda: _visible(sys._getframe(1)),
    inspect.stack: lambda context=1: [f for f in inspect.stack(context) if not f.filename.startswith(_HERE)],
    inspect.getouterframes: lambda frame, context=1: [f for f in inspect.getouterframes(frame, context) if not f.filename.startswith(_HERE)],
}


def caught():
    """First action of every exception handler of the code under contract."""
    if core.CUR is not None:
        e = sys.exc_info()[1]
        if e is not None:
            core.check_fault(e)


def _apply(model, *args, **kw):
    try:
        return model(*args, **kw)
    except TypeError as e:
        if e.__traceback__.tb_next is None:     # the stand-in does not take these arguments
            raise Unsupported(f"arguments of a stand-in: {e}") from None
        raise


def call(f, /, *args, **kw):
    if getattr(f, "__module__", None) == "inspect" and f in _FRAMES:
        return _FRAMES[f](*args, **kw)
    if not active():
        return f(*args, **kw)
    if f is object.__getattribute__ or f is object.__setattr__:
        return f(*args, **kw)
    ctx = core.CUR
    try:
        model = EXTERNALS.get(f)
    except TypeError:
        model = None
    except Unsupported:
        model = None
    if model is not None:
        return _apply(model, *args, **kw)
    f0 = f.__func__ if isinstance(f, types.MethodType) else f
    if f0 is not f and f0 in EXTERNALS:
        return _apply(EXTERNALS[f0], f.__self__, *args, **kw)
    if isinstance(f0, types.FunctionType):
        mod = f0.__module__
        if mod is not None and CONTRACTS and (mod, f0.__qualname__) in CONTRACTS:
            c = CONTRACTS[(mod, f0.__qualname__)]
            r = c(f, *args, **kw)
            if r is not NotImplemented:
                return r
        if mod and mod.startswith("fora"):
            if ctx.symbolic:
                ctx.stats.inlined.add(f"{mod}.{f0.__qualname__}")
            return f(*args, **kw)
        if mod in DENY_MODULES and f0 not in PURE and f0 not in ALLOW_REAL:
            raise Unsupported(f"call of {mod}.{f0.__qualname__} without a contract")
        if mod in ("posixpath", "genericpath", "os.path") and f0 not in ALLOW_REAL:
            if f0 not in PURE:
                raise Unsupported(f"call of os.path.{f0.__name__} without a contract")
            if ctx.symbolic and (any(has_sym(a) for a in args)):
                m = PATH_MODELS.get(f0.__name__)
                if m is None:
                    raise Unsupported(f"os.path.{f0.__name__} of symbolic text")
                return m(*args, **kw)
        if ctx.symbolic and (mod or "") in _NATIVE_PY and any(has_sym(a) for a in list(args) + list(kw.values())):
            raise Unsupported(f"{mod}.{f0.__qualname__} on symbolic values")
        return f(*args, **kw)
    # builtin functions / types / C methods
    self_ = getattr(f, "__self__", None)
    if isinstance(self_, _struct.Struct):
        m = EXTERNALS.get(getattr(_struct, f.__name__, None))
        if m is not None:
            return m(self_.format, *args, **kw)
    mod = getattr(f, "__module__", None)
    if mod in DENY_MODULES and not isinstance(f, type) and f not in ALLOW_REAL and f not in PURE:
        raise Unsupported(f"call of {mod}.{getattr(f, '__name__', f)} without a contract")
    if f is builtins.open or (isinstance(f, type) and mod in ("subprocess",) and not issubclass(f, BaseException)):
        if f not in ALLOW_REAL and f not in PURE:
            raise Unsupported(f"call of {getattr(f, '__name__', f)} without a contract")
    if not ctx.symbolic:
        return f(*args, **kw)
    if f is getattr and len(args) >= 2 and not issym(force(args[1])):
        return getattr(force(args[0]), force(args[1]), *args[2:])
    m = BUILTIN_MODELS.get(f) if _hashable_callable(f) else None
    if m is not None:
        return m(*args, **kw)
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType, types.ClassMethodDescriptorType, types.WrapperDescriptorType)) \
            or (isinstance(f, type) and not (f.__flags__ & (1 << 9) and not f.__module__ == "builtins")):
        name = getattr(f, "__name__", "?")
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values()) or issym(getattr(f, "__self__", None)):
            if isinstance(f, type):
                if issubclass(f, BaseException) or f in (list, tuple, dict, types.SimpleNamespace, types.GenericAlias, enumerate, zip, reversed, map, filter, set, frozenset, functools.partial):
                    return f(*args, **kw)
                if f.__module__ != "builtins" and f.__module__ not in _C_MODULES:
                    return f(*args, **kw)
                raise Unsupported(f"{name}() on symbolic values")
            if f is print:          # terminal output of unknown text is not modelled
                return None
            if name in _CONT_METHODS or name in ("setattr", "hasattr", "isinstance", "print", "iter", "next", "callable", "id", "delattr", "issubclass", "vars", "any", "all"):
                return f(*args, **kw)
            raise Unsupported(f"builtin {name}() on symbolic values")
    return f(*args, **kw)


_C_MODULES = {"_struct", "_hashlib", "re", "datetime", "uuid", "collections"}
_NATIVE_PY = {"re", "json", "textwrap", "difflib", "fnmatch", "string", "shlex", "copy", "stat", "struct", "hashlib", "urllib.parse"}


def _hashable_callable(f):
    try:
        hash(f)
        return True
    except Abort:
        return False
    except TypeError:
        return False


def _len(x):
    x = force(x)
    if isinstance(x, _Text):
        return x.sym_len()
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return len(x)


def _str(*a, **k):
    if not a:
        return ""
    x = force(a[0])
    if len(a) > 1 or k:
        if isinstance(x, SymBytes):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    if has_sym(x) or _opaque_str(x):
        return _to_text(x)
    return str(x)


def _int(*a, **k):
    x = force(a[0]) if a else 0
    base = force(a[1]) if len(a) > 1 else k.get("base", 10)
    if isinstance(x, SymInt) or isinstance(x, SymBool):
        return x if isinstance(x, SymInt) else int(bool(x))
    if isinstance(x, SymStr):
        return sym.int_of_str(x, base)
    if issym(x):
        raise Unsupported("int() of symbolic value")
    return int(*a, **k)


def _oct(x):
    x = force(x)
    if isinstance(x, SymInt):
        if x >= 0:
            return SymStr(("0o", sym.oct_digits(x)))
        return SymStr(("-0o", sym.oct_digits(-x)))
    return oct(x)


def _bool(*a):
    if not a:
        return False
    x = force(a[0])
    if issym(x):
        return SymBool(sym.truth(x))
    return bool(x)


def _repr(x):
    x = force(x)
    if has_sym(x) or _opaque_str(x):
        return SymStr((sym.Atom(core.CUR.str("repr").z),))
    return repr(x)


def _sorted(x, key=None, reverse=False):
    x = force(x)
    if hasattr(x, "sym_sorted"):
        return x.sym_sorted(**({"key": key, "reverse": reverse} if key is not None or reverse else {}))
    x = list(iter_(x))
    if key is None and not reverse and len(x) > 1 and any(isinstance(force(y), sym.Sym) for y in x):
        return SortedSym(x)
    return sorted(x, key=key, reverse=reverse)


class SortedSym(list):
    """Sorted list of symbolic texts: equal to another one iff both hold the same elements equally often.
    The order of iteration is not the sorted one; contracts on such lists are about sets."""
    __hash__ = None

    def __eq__(self, o):
        o = force(o)
        if not isinstance(o, list):
            return NotImplemented
        if len(self) != len(o):
            return False
        if not isinstance(o, SortedSym):
            if len(o) > 1:
                raise Unsupported("comparison of a sorted symbolic list with an unsorted one")
        a, b = [force(x) for x in self], [force(x) for x in o]
        if len(a) > 4:
            raise Unsupported("long symbolic list")
        return bool(sym.disj(*[sym.conj(*[x == y for x, y in zip(a, q)]) for q in itertools.permutations(b)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


def _bytes(*a):
    x = force(a[0]) if a else b""
    if isinstance(x, SymBytes):
        return x
    if has_sym(x):
        raise Unsupported("bytes() of symbolic")
    return bytes(*a)


def _hash(x):
    return hash(force(x))


class LSet:
    """A set whose elements are compared with the solver (list-backed; insertion order)."""
    __slots__ = ("items",)
    __class__ = property(lambda self: set)

    def __init__(self, it=()):
        self.items = []
        for x in iter_(it):
            self.add(x)

    def add(self, x):
        x = force(x)
        if not self._has(x):
            self.items.append(x)

    def _has(self, x):
        for y in self.items:
            if y is x:
                return True
        for y in self.items:
            if y == x:
                return True
        return False

    def sym_contains(self, x):
        return self._has(force(x))

    __contains__ = sym_contains

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def update(self, *its):
        for it in its:
            for x in iter_(it):
                self.add(x)

    def discard(self, x):
        x = force(x)
        self.items = [y for y in self.items if not (y is x or bool(y == x))]

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def pop(self):
        if not self.items:
            raise KeyError("pop from an empty set")
        return self.items.pop(0)

    def clear(self):
        self.items = []

    def copy(self):
        return LSet(self.items)

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def difference(self, *os):
        r = self.copy()
        for o in os:
            for x in iter_(o):
                r.discard(x)
        return r

    def intersection(self, o):
        o = o if isinstance(o, (LSet, set, frozenset)) else LSet(o)
        return LSet([x for x in self.items if in_(x, o)])

    def symmetric_difference(self, o):
        return self.difference(o).union(LSet(o).difference(self))

    def issubset(self, o):
        return all(bool(in_(x, o)) for x in self.items)

    def issuperset(self, o):
        return all(self._has(x) for x in o)

    def isdisjoint(self, o):
        return not any(self._has(x) for x in o)

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return LSet(o).difference(self)

    def __and__(self, o):
        return self.intersection(o)

    __ror__ = __or__
    __rand__ = __and__

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = o if type(o) is LSet else LSet(o)
        return len(self) == len(o) and self.issubset(o)

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return f"LSet({self.items!r})"


def _set(*a):
    if a:
        x = force(a[0])
        if isinstance(x, SymGen):
            return x.it.sym_comp("set", x.f, x.cond)
        if getattr(type(x), "sym_graph", False):
            return x.sym_set()
        if hasattr(x, "sym_comp") and not isinstance(x, (list, tuple)):
            return x.sym_comp("set", lambda e: e, None)
        return LSet(x)
    if getattr(core.CUR, "graph_world", None) is not None:
        from . import graphs
        return graphs.NodeSet()
    return LSet()


def _type(*a):
    if len(a) == 1 and issym(a[0]):
        return a[0].__class__
    return type(*a)


def _isinstance(x, t):
    return isinstance(force(x), t)


def _extremum(real, smallest):
    def f(*a, **k):
        x = force(a[0]) if a else None
        if len(a) == 1 and hasattr(x, "sym_extremum") and not set(k) - {"default"}:
            return x.sym_extremum(smallest, k.get("default", UNDEF))
        return real(*a, **k)
    return f


def _any(x):
    x = force(x)
    if isinstance(x, SymGen) and hasattr(x.it, "sym_any"):
        return x.it.sym_any(x.f, x.cond)
    if hasattr(x, "sym_any"):
        return x.sym_any()
    return any(x)


def _all(x):
    x = force(x)
    if isinstance(x, SymGen) and hasattr(x.it, "sym_any"):
        return not x.it.sym_any(lambda e: not_(x.f(e)), x.cond)
    return all(x)


def _next(x, *default):
    x = force(x)
    if isinstance(x, SymGen) and getattr(type(x.it), "sym_graph", False):
        x = x.it.sym_comp("list", x.f, x.cond)
    if hasattr(x, "sym_next"):
        return x.sym_next(*default)
    return next(x, *default)


def _filter(f, x):
    x = force(x)
    if hasattr(x, "sym_filter"):
        return x.sym_filter(f)
    return filter(f, x)


def _range(*a):
    a = [force(x) for x in a]
    if any(isinstance(x, SymInt) for x in a):
        from . import loops
        return loops.SymRange(*a)
    return range(*a)


BUILTIN_MODELS = {set: _set, list: _list, len: _len, str: _str, int: _int, oct: _oct, bool: _bool, repr: _repr, sorted: _sorted, bytes: _bytes,
                  hash: _hash, type: _type, isinstance: _isinstance, range: _range, any: _any, all: _all, next: _next, filter: _filter,
                  max: _extremum(max, False), min: _extremum(min, True)}


def _p_join(a, *rest):
    r = force(a)
    for b in rest:
        b = force(b)
        if not issym(b) and b == "":
            bs = False
        else:
            bs = b.startswith("/")
        if bool(bs):
            r = b
        else:
            e = r.endswith("/") if not (not issym(r) and r == "") else True
            if issym(r) and not bool(r):
                e = True
            r = r + b if bool(e) else r + "/" + b
    if getattr(core.CUR, "path_facts", False) and issym(r) and issym(b):
        z = sym.lift(b)
        core.CUR.axiom(sym.z3.Implies(sym.z3.Not(sym.z3.Contains(z, sym.sval("/"))), sym.ufn("path_basename", sym.S, sym.S)(sym.lift(r)) == z))
    return r


def _p_uf(name):
    def f(p, *a, **k):
        if a or k:
            raise Unsupported(f"os.path.{name} with options")
        p = force(p)
        e = sym.ufn("path_" + name, sym.S, sym.S)(p.z)
        if name == "basename":
            core.CUR.axiom(sym.z3.Not(sym.z3.Contains(e, sym.sval("/"))))
        return SymStr((sym.Atom(e),))
    return f


PATH_MODELS = {"join": _p_join, "basename": _p_uf("basename"), "dirname": _p_uf("dirname"), "normpath": _p_uf("normpath")}
