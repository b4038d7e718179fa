"""Assumed contracts of struct/io and the byte streams between client and dispatcher."""
import builtins
import io
import struct
import typing

import z3

from pyvc import core, rt, sym
from pyvc.core import PathEnd, Unsupported
from pyvc.loops import SymSeq
from pyvc.sym import Atom, SymBool, SymBytes, SymInt, SymStr, force

import fora.connectors.tunnel_dispatcher as td

_RANGES = {"b": (-2**7, 2**7 - 1), "B": (0, 2**8 - 1), "h": (-2**15, 2**15 - 1), "H": (0, 2**16 - 1), "i": (-2**31, 2**31 - 1), "I": (0, 2**32 - 1),
           "l": (-2**31, 2**31 - 1), "L": (0, 2**32 - 1), "q": (-2**63, 2**63 - 1), "Q": (0, 2**64 - 1)}


def _codes(fmt):
    order = "@"
    if fmt[:1] in "<>!=@":
        order, fmt = fmt[0], fmt[1:]
    if order == "!":
        order = ">"
    out, n = [], ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
        elif ch != " ":
            if ch == "s" or ch not in _RANGES and ch != "?":
                raise Unsupported(f"struct code {ch}")
            out += [ch] * int(n or 1)
            n = ""
    return order, out


def pack(fmt, *vals):
    fmt = fmt if isinstance(fmt, str) else fmt.decode()
    vals = [force(v) for v in vals]
    if not any(isinstance(v, sym.Sym) for v in vals):
        return struct.pack(fmt, *vals)
    ctx = core.cur()
    order, codes = _codes(fmt)
    if len(codes) != len(vals):
        raise struct.error("pack expected a different number of items")
    if order == "@" and len(codes) > 1:
        raise Unsupported("native alignment")
    parts = []
    for c, v in zip(codes, vals):
        if not isinstance(v, sym.Sym):
            parts.append(struct.pack(order + c, v))
            continue
        if c == "?":
            z = sym.truth(v)
            e = sym.ufn("pack_bool", sym.B, sym.S)(z)
            ctx.axiom(sym.BLEN(e) == 1)
            parts.append(Atom(e, ("pack", "?", SymBool(z))))
            continue
        if isinstance(v, SymBool):
            v = SymInt(z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
        if not isinstance(v, SymInt):
            raise struct.error("required argument is not an integer")
        lo, hi = _RANGES[c]
        if not bool(SymBool(z3.And(v.z >= lo, v.z <= hi))):
            raise struct.error("argument out of range")
        e = sym.ufn(f"pack_{order}{c}", sym.I, sym.S)(v.z)
        ctx.axiom(sym.BLEN(e) == struct.calcsize(order + c))
        ctx.axiom(sym.ufn(f"unpack_{order}{c}", sym.S, sym.I)(e) == v.z)
        parts.append(Atom(e, ("pack", order + c, v)))
    return SymBytes(tuple(parts))


def unpack(fmt, data):
    fmt = fmt if isinstance(fmt, str) else fmt.decode()
    data = force(data)
    if not isinstance(data, sym.Sym):
        return struct.unpack(fmt, data)
    c0 = data.concrete()
    if c0 is not None:
        return struct.unpack(fmt, c0)
    ctx = core.cur()
    order, codes = _codes(fmt)
    size = struct.calcsize(fmt)
    n = data.sym_len()
    if not bool(n == size):
        raise struct.error("unpack requires a buffer of a different size")
    if len(codes) != 1:
        raise Unsupported("unpack of several symbolic fields")
    c = codes[0]
    if len(data.parts) == 1:
        tag = data.parts[0].tag
        if isinstance(tag, tuple) and tag[0] == "pack" and (tag[1] == order + c or tag[1] == c == "?"):
            return (tag[2],)
    if c == "?":
        return (SymBool(sym.ufn("unpack_bool", sym.S, sym.B)(data.z)),)
    v = sym.ufn(f"unpack_{order}{c}", sym.S, sym.I)(data.z)
    lo, hi = _RANGES[c]
    ctx.axiom(z3.And(v >= lo, v <= hi))
    return (SymInt(v),)


class OutBuf:
    """A writable byte sink; also the contract of io.BytesIO as a write buffer."""
    all = []

    def __init__(self, initial=b""):
        self.data = initial
        self.closed = False
        self.pos = 0
        OutBuf.all.append(self)

    def write(self, d):
        d = force(d)
        if not isinstance(d, (bytes, bytearray, SymBytes)):
            raise TypeError("a bytes-like object is required")
        self.data = self.data + d if not isinstance(d, bytearray) else self.data + bytes(d)
        return None

    def flush(self):
        pass

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    # reading side, used when a buffer is filled and then read back
    def read(self, n=-1):
        raise Unsupported("reading from a BytesIO")


class InBuf:
    """The byte stream seen by the reader.

    `cut`: the stream may end at any byte (chosen demonically); `short` records that it did.
    """

    def __init__(self, ctx, data, cut=False):
        self.ctx, self.cut = ctx, cut
        self.short = False
        self.reads = 0
        if ctx.symbolic:
            self.chunks = list(data.parts if isinstance(data, SymBytes) else (data,) if data else ())
        else:
            self.data, self.pos = data, 0
            if cut:
                n = len(data)
                k = ctx.choice("cut_at", list(range(n)) if n <= 40 else [0, 1, 3, 4, 5, 8, 9, 12, 13, 20, n // 2, n - 8, n - 5, n - 4, n - 2, n - 1]) if n else None
                if k is None:
                    raise PathEnd()
                self.data = data[:k]

    def remaining(self):
        return SymBytes(tuple(self.chunks)) if self.ctx.symbolic else self.data[self.pos:]

    def read(self, n=-1):
        n = force(n)
        self.reads += 1
        if not self.ctx.symbolic:
            if n < 0:
                n = len(self.data)
            r = self.data[self.pos:self.pos + n]
            self.pos += len(r)
            if len(r) < n:
                self.short = True
            return r
        ctx = self.ctx
        if self.short:
            return b""
        aligned = isinstance(n, SymInt) and self.chunks and isinstance(self.chunks[0], Atom) and \
            z3.simplify(n.z).eq(z3.simplify(SymBytes.atom_len(self.chunks[0])))
        if not aligned:
            if bool(n == 0):
                return b""
            if bool(n < 0):
                raise Unsupported("read to end of stream")
        if self.cut and ctx.choose(2):
            m = ctx.int("short_len", lo=0)
            ctx.assume(sym.SymBool(m.z < sym.lift(n)))
            self.short = True
            b = ctx.bytes("short_data")
            ctx.add(sym.BLEN(b.z) == m.z)
            return b
        if aligned:
            return SymBytes((self.chunks.pop(0),))
        # whole written pieces; a piece that must be empty is skipped
        got, taken = [], 0
        while self.chunks:
            need = n - taken
            c = self.chunks[0]
            if not isinstance(c, Atom) and not isinstance(need, SymInt):
                if need < len(c):
                    self.chunks[0] = c[need:]
                    got.append(c[:need])
                    return sym.simp(SymBytes(tuple(got)))
                self.chunks.pop(0)
                got.append(c)
                taken = taken + len(c)
                if need == len(c):
                    return sym.simp(SymBytes(tuple(got)))
                continue
            ln = len(c) if not isinstance(c, Atom) else SymInt(SymBytes.atom_len(c))
            if ctx.must(need == ln):
                self.chunks.pop(0)
                got.append(c)
                return sym.simp(SymBytes(tuple(got)))
            if ctx.must(ln == 0):
                self.chunks.pop(0)
                continue
            if ctx.must(need > ln) and not (isinstance(c, Atom) and c.tag and c.tag[0] == "rest"):
                self.chunks.pop(0)
                got.append(c)
                taken = taken + ln
                continue
            break
        if not self.chunks:
            self.short = True
            return sym.simp(SymBytes(tuple(got)))
        raise Unsupported(f"a read of {n} that is not aligned with the pieces that were written: {self.chunks} {got}")


class SeqWrite:
    """Loop contract of writing out a list of unknown length: one generic iteration
    is verified to append exactly W(element), with W the same text for every element;
    the loop then appends the concatenation of W over the list."""

    TEMPLATES = {}

    def __init__(self, name):
        self.name = name

    def start_for(self, seq, reader, names):
        entry = reader()
        for n in names:
            if entry.get(n, rt.UNDEF) is not rt.UNDEF:
                raise Unsupported(f"loop carries local '{n}'")
        return _SeqWriteLoop(self, seq)


class _SeqWriteLoop:
    cut = False

    def __init__(self, c, seq):
        self.c, self.seq = c, seq

    def __iter__(self):
        ctx = core.cur()
        before = [(b, b.data) for b in OutBuf.all]
        for b, _ in before:
            b.data = SymBytes(())
        k = ctx.int(self.seq.name + ".k", lo=0)
        # a list may be empty: then the body does not run at all
        e = self.seq.elem(k)
        nd = len(ctx.decisions)
        if bool(self.seq.n > 0):
            yield e
        else:
            for b, d in before:
                b.data = d
            return
        changed = [(b, d) for b, d in before if not (isinstance(b.data, SymBytes) and not b.data.parts)]
        if len(OutBuf.all) != len(before):
            raise Unsupported("buffer created per element")
        if len(changed) != 1:
            raise Unsupported("loop body does not write to exactly one buffer")
        buf, old = changed[0]
        w = buf.data if isinstance(buf.data, SymBytes) else SymBytes((buf.data,))
        for b, d in before:
            if b is not buf:
                b.data = d
        key = repr(w)
        prev = SeqWrite.TEMPLATES.setdefault((id(type(self)), self.seq.name), key)
        if prev != key:
            raise Unsupported("element encodings differ in shape between paths")
        rep = z3.String(f"rep_{self.seq.name}")
        buf.data = old + SymBytes((Atom(rep, ("rep", self.seq, w, e)),))


def make_range_hook(ctx, inbuf):
    """list(f(_) for _ in range(n)) reading a list written by SeqWrite."""
    def hook(n, f):
        nn = force(n)
        if not inbuf.short and inbuf.chunks and isinstance(inbuf.chunks[0], Atom) and isinstance(inbuf.chunks[0].tag, tuple) and inbuf.chunks[0].tag[0] == "rep":
            _, seq, w, e = inbuf.chunks[0].tag
            if not ctx.ensure("list: the reader expects as many elements as were written", nn == seq.n):
                raise PathEnd()
            saved = inbuf.chunks[1:]
            rest = Atom(ctx.bytes("rest_of_list").z, ("rest",))
            inbuf.chunks = list(w.parts) + [rest]
            v = f(ctx.int("list_index", lo=0))
            if inbuf.short:
                # reached only if a short read was swallowed
                return _Truncated(v)
            ctx.ensure("list: a generic element is read back equal", eq(v, e))
            ok = len(inbuf.chunks) == 1 and inbuf.chunks[0] is rest
            ctx.ensure("list: reading an element consumes exactly its bytes", ok or inbuf.remaining() == SymBytes((rest,)))
            inbuf.chunks = saved
            return seq
        if ctx.must(nn == 0):
            return []
        if inbuf.short:
            # generic iteration after the end of stream
            if bool(nn > 0):
                f(ctx.int("list_index", lo=0))
            return _Truncated(None)
        if inbuf.chunks and not ctx.must(nn == 0):
            # e.g. the list was empty on this path
            if bool(nn == 0):
                return []
        raise Unsupported("list read at a position where no list was written")
    return hook


class _Truncated:
    def __init__(self, v):
        self.v = v


def eq(a, b):
    """Equality of field values as a condition."""
    a, b = force(a), force(b)
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if a is b:
            return True
        q, o = (a, b) if isinstance(a, SymSeq) else (b, a)
        return q.n == 0 if type(o) is list and not o else False
    if a is None or b is None:
        return a is b
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = sym.conj(r, eq(x, y))
        return r
    r = a == b
    if isinstance(r, (SymBool, bool)):
        # distinguish True from 1, bytes from str
        ta, tb = a.__class__, b.__class__
        return r if ta is tb or {ta, tb} <= {int, bool} else False
    return r


RANGE = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
STRS = ["", "a", "ä€\U0001f600", "x" * 70, "nul\x00nl\n", "\udcff\ud800", "-n"]
BYTS = [b"", b"\x00", b"abc\n", bytes(range(256)), b"z" * 70000]


def symbolic_field(ctx, name, t, depth=0):
    """An arbitrary value of the declared wire type t."""
    if t is bool:
        return ctx.bool(name)
    tn = getattr(t, "__name__", "")
    if tn in RANGE:
        lo, hi = RANGE[tn]
        return ctx.int(name, lo=lo, hi=hi, dom=[lo, hi, 0, 1, lo + 1, hi - 1, 77])
    if t is int:
        return ctx.int(name, lo=0, hi=1000)
    if t is str:
        return ctx.str(name, dom=STRS)
    if t is bytes:
        return ctx.bytes(name, dom=BYTS)
    org = typing.get_origin(t)
    args = typing.get_args(t)
    if org is typing.Union and type(None) in args:
        inner = [a for a in args if a is not type(None)][0]
        return ctx.opt(name, lambda: symbolic_field(ctx, name + ".v", inner, depth + 1))
    if org is list:
        if ctx.symbolic:
            n = ctx.int(name + ".len", lo=0, hi=2**63 - 1)   # len() <= sys.maxsize
            seq = SymSeq(name, n, None, contract=SeqWrite(name))
            cache = {}

            def elem(k, seq=seq):
                return symbolic_field(ctx, f"{name}[k]", args[0], depth + 1)
            seq.elem = elem
            return seq
        k = ctx.choice(name + ".len", [0, 1, 3])
        return [symbolic_field(ctx, f"{name}[{i}]", args[0], depth + 1) for i in range(k)]
    raise Unsupported(f"field type {t}")


def packet_classes():
    seen, out = set(), []
    for k, v in vars(td).items():
        if isinstance(v, type) and hasattr(v, "_fields") and k.startswith("Packet") and v not in seen:
            seen.add(v)
            out.append(v)
    return out


def field_types(cls):
    ann = {}
    for c in reversed(cls.__mro__):
        ann.update(c.__dict__.get("__annotations__", {}))
    return {f: ann[f] for f in cls._fields}


def install(ctx):
    OutBuf.all = []
    SeqWrite.TEMPLATES = {} if not ctx.symbolic else SeqWrite.TEMPLATES
    rt.EXTERNALS.update({struct.pack: pack, struct.unpack: unpack})
    if ctx.symbolic:
        rt.EXTERNALS[io.BytesIO] = OutBuf
    else:
        rt.ALLOW_REAL.add(io.BytesIO)
        rt.EXTERNALS.pop(struct.pack, None)
        rt.EXTERNALS.pop(struct.unpack, None)
    td.is_server = True
    td.debug = False
