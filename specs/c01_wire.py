"""C01: every message arrives unchanged; truncation is an error."""
import types

from pyvc import core, sym
from pyvc.core import PathEnd
from pyvc.harness import harness
from pyvc.sym import force
from specs import wirelib as W
from specs.wirelib import td

FUN = ["fora.connectors.tunnel_dispatcher." + f for f in (
    "_serialize", "_deserialize", "_serializers[*]", "_deserializers[*]", "_write_packet", "_read_packet", "Packet.wrapper",
    "Connection.read", "Connection.write", "Connection.write_packet", "Connection.flush", "receive_packet")]


def _same(ctx, cls, sent, out):
    """The postcondition of receiving `sent`."""
    if cls.__name__ == "PacketOSError":
        ok = out.raised(td.RemoteOSError)
        ctx.ensure("an error report is raised as a remote OS error", ok, out)
        if ok:
            for f in ("errno", "strerror"):
                ctx.ensure(f"remote OS error carries {f}", W.eq(getattr(out.exc, f), getattr(sent, f)), out)
            ctx.ensure("remote OS error carries its message", W.eq(out.exc.args[0], sent.msg), out)
        return
    if cls.__name__ == "PacketInvalidField":
        ok = out.raised(ValueError) and not isinstance(out.exc, UnicodeError)
        ctx.ensure("a rejected field is raised as a value error", ok, out)
        if ok:
            m = out.exc.args[0]
            m = m if isinstance(m, (str, sym.SymStr)) else ""
            em = force(sent.error_message)
            ctx.ensure("the value error carries the message", sym.SymStr((m,) if isinstance(m, str) and not isinstance(m, sym.Sym) else m.parts).contains(em) if ctx.symbolic else em in m, out)
        return
    ctx.ensure("the message is received", out.returned, out)
    if not out.returned:
        return
    got = out.value
    ctx.ensure("the message kind is unchanged", type(got) is cls, (type(got), cls))
    if type(got) is not cls:
        return
    for f in cls._fields:
        ctx.ensure(f"field {f} is unchanged", W.eq(getattr(got, f), getattr(sent, f)), (f, getattr(got, f), getattr(sent, f)))


class _AnyField:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return "v"


def _instance(ctx, cls):
    vals = {f: W.symbolic_field(ctx, f, t) for f, t in W.field_types(cls).items()}
    if cls.__name__ == "PacketInvalidField":
        vals["field"] = ctx.choice("field", ["user", "path", "umask"])
    return cls(**vals)


def _roundtrip(cls):
    def run(ctx):
        W.install(ctx)
        p = _instance(ctx, cls)
        out = W.OutBuf()
        conn = td.Connection(None, out)
        o = ctx.outcome(conn.write_packet, p)
        ctx.ensure("every message of the declared field types is sent", o.returned, o)
        if not o.returned:
            raise PathEnd()
        ctx.cover("sent")
        ctx.ensure("a message occupies at least one byte", (out.data != b""))
        rest = ctx.bytes("rest", dom=[b"", b"\x01", b"\x00\x00\x00\x05abc"])
        if ctx.symbolic:
            ra = rest.parts[0]
            ra.tag = ("rest",)
            stream = W.InBuf(ctx, out.data + rest)
        else:
            stream = W.InBuf(ctx, out.data + rest)
        ctx.range_hook = W.make_range_hook(ctx, stream)
        rconn = td.Connection(stream, None)
        req = _AnyField() if cls.__name__ == "PacketInvalidField" else None
        r = ctx.outcome(td.receive_packet, rconn, req) if req is not None else ctx.outcome(td.receive_packet, rconn)
        _same(ctx, cls, p, r)
        ctx.ensure("exactly the message's own bytes are consumed", W.eq(stream.remaining(), rest) if not ctx.symbolic else stream.remaining() == rest, stream.remaining())
        ctx.cover("received")
    return run


def _truncated(cls):
    def run(ctx):
        W.install(ctx)
        p = _instance(ctx, cls)
        out = W.OutBuf()
        o = ctx.outcome(td.Connection(None, out).write_packet, p)
        if not o.returned:
            raise PathEnd()
        stream = W.InBuf(ctx, out.data, cut=True)
        ctx.range_hook = W.make_range_hook(ctx, stream)
        req = _AnyField() if cls.__name__ == "PacketInvalidField" else None
        r = ctx.outcome(td.receive_packet, td.Connection(stream, None), req) if req is not None else ctx.outcome(td.receive_packet, td.Connection(stream, None))
        if ctx.symbolic and not stream.short:
            raise PathEnd()
        ctx.cover("truncated")
        ctx.ensure("a truncated stream is reported as a connection error", r.raised(OSError, EOFError), r)
    return run


class _Unencodable:
    legit_missing = True
    """A value no field type accepts."""


def _refused(cls):
    def run(ctx):
        W.install(ctx)
        types_ = W.field_types(cls)
        fs = list(types_)
        bad = ctx.choice("bad_field", list(range(len(fs))))
        vals = {f: W.symbolic_field(ctx, f, t) for f, t in types_.items()}
        vals[fs[bad]] = _Unencodable()
        out = W.OutBuf()
        o = ctx.outcome(td.Connection(None, out).write_packet, cls(**vals))
        if types_[fs[bad]] is bool:
            raise PathEnd()     # any object has a truth value
        ctx.cover("refused")
        ctx.ensure("a value outside the field's type is refused", not o.returned, o)
        ctx.ensure("a refused message leaves nothing on the stream", W.eq(out.data, b""), out.data)
    return run


for _c in W.packet_classes():
    if any(t is not bool for t in W.field_types(_c).values()):
        harness("C01", f"refusal[{_c.__name__}]", functions=FUN, covers=["refused"], enum=60, samples=40)(_refused(_c))
    harness("C01", f"roundtrip[{_c.__name__}]", functions=FUN, covers=["sent", "received"], enum=120, samples=60)(_roundtrip(_c))
    harness("C01", f"truncation[{_c.__name__}]", functions=FUN, covers=["truncated"], enum=150, samples=80)(_truncated(_c))
