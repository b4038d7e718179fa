"""Unbounded sequences and loops."""
import z3

from . import core, sym
from .core import Unsupported, PathEnd
from .sym import SymInt, SymBool, SymStr, Atom


class SymRange:
    """range(n) for a symbolic n."""

    def __init__(self, *a):
        if len(a) != 1:
            raise Unsupported("symbolic range with a start or step")
        self.n = a[0]

    def __iter__(self):
        raise Unsupported("native iteration of a symbolic range")

    def sym_comp(self, kind, f, cond=None):
        if cond is not None:
            raise Unsupported("filtered comprehension over a symbolic range")
        hook = getattr(core.cur(), "range_hook", None)
        if hook is None:
            raise Unsupported("comprehension over a symbolic range without a contract")
        return hook(self.n, f)

    def sym_loop(self, lid, reader, names, lc):
        if lc is None:
            raise Unsupported(f"loop {lid} over a symbolic range without a contract")
        return lc.start_for(self, reader, names)


class SymSeq:
    """A list of unknown length.  `elem(i)` is its i-th element (a function of i)."""

    def __init__(self, name, n, elem, contract=None):
        self.name, self.n, self.elem, self.contract = name, n, elem, contract

    __class__ = property(lambda self: list)

    def sym_len(self):
        return self.n

    def __len__(self):
        raise Unsupported("native len() of a symbolic sequence")

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        raise Unsupported("native iteration of a symbolic sequence")

    def __eq__(self, o):
        return o is self

    def __hash__(self):
        return id(self)

    def sym_loop(self, lid, reader, names, lc):
        c = lc or self.contract
        if c is None or not hasattr(c, "start_for"):
            raise Unsupported(f"loop {lid} over a symbolic sequence without a contract")
        return c.start_for(self, reader, names)

    def sym_comp(self, kind, f, cond=None):
        c = self.contract
        if c is None or not hasattr(c, "comp"):
            raise Unsupported("comprehension over a symbolic sequence without a contract")
        return c.comp(self, kind, f, cond)

    def sym_contains(self, x):
        raise Unsupported("membership in a symbolic sequence")

    def __repr__(self):
        return f"SymSeq({self.name})"


class ForLoop:
    """Loop cut at its head: init / preserve / use of an invariant.

    inv(k, vals) -> condition, over the iteration count k and the loop-carried
    locals; havoc(name, k) -> fresh value of a carried local (a heap object may be
    havocked in havoc_heap).  body frame: only `names` and what havoc_heap covers
    may change; `frame()` snapshots everything else and is compared.
    """
    cut = True

    def __init__(self, contract, seq, reader, names):
        self.c, self.seq, self.reader, self.names = contract, seq, reader, names
        ctx = core.cur()
        c = contract
        entry = reader()
        ctx.ensure(f"{c.name}: invariant holds on entry", c.inv(0, entry))
        n = seq.sym_len() if hasattr(seq, "sym_len") else seq.n
        self.n = n
        self.mode = ctx.choose(2)
        if self.mode == 0:
            self.k = ctx.int(f"{c.name}.k", lo=0)
            ctx.assume(self.k < n)
        else:
            self.k = n
        from .rt import UNDEF
        self.vals = {}
        for nm in names:
            if entry.get(nm, UNDEF) is UNDEF and not c.carries(nm):
                self.vals[nm] = UNDEF
            elif c.carries(nm):
                self.vals[nm] = c.havoc(nm, self.k)
            else:
                raise Unsupported(f"loop carries local '{nm}' not covered by its contract")
        c.havoc_heap(self.k)
        ctx.assume(c.inv(self.k, self.vals))

    def value(self, n):
        return self.vals[n]

    def __iter__(self):
        ctx = core.cur()
        if self.mode == 1:
            return
        yield self.seq.elem(self.k) if hasattr(self.seq, "elem") else self.k
        ctx.ensure(f"{self.c.name}: invariant preserved", self.c.inv(self.k + 1, self.reader()))
        raise PathEnd()


class LoopContract:
    def __init__(self, name, inv, carried=None, heap=None):
        self.name, self._inv, self._carried, self._heap = name, inv, carried or {}, heap

    def inv(self, k, vals):
        return self._inv(k, vals)

    def carries(self, n):
        return n in self._carried

    def havoc(self, n, k):
        return self._carried[n](k)

    def havoc_heap(self, k):
        if self._heap:
            self._heap(k)

    def start_for(self, seq, reader, names):
        return ForLoop(self, seq, reader, names)


class Filtered:
    """Contract of `[f(x) for x in seq if cond(x)]` over a sequence of unknown length: the result
    is described by its clause on one arbitrary element, which the specification inspects."""

    def __init__(self, write_contract):
        self.wc = write_contract

    def comp(self, seq, kind, f, cond):
        ctx = core.cur()
        k = ctx.int(seq.name + ".any", lo=0)
        e = seq.elem(k)
        c = True if cond is None else cond(e)
        v = f(e)
        n = ctx.int(seq.name + ".filtered.len", lo=0, hi=2**31)
        r = SymSeq(seq.name + "_filtered", n, lambda i: ctx.str(seq.name + "_filtered[k]"), contract=self.wc(seq.name + "_filtered"))
        r.origin = (seq, k, e, c, v)
        return r
