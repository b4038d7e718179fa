"""setup_cmd: the tools the checks rely on are there, and the verifier accepts and refutes what it should."""
import os, shutil, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import z3  # noqa
assert shutil.which("cvc5"), "cvc5 not found"
from pyvc import core, harness


def good(ctx):
    x = ctx.int("x")
    y = x + 1 if x > 0 else 1 - x
    ctx.ensure("positive", y > 0)


def bad(ctx):
    x = ctx.int("x")
    y = x + 1 if x > 0 else 0 - x
    ctx.ensure("positive", y > 0)


def vacuous(ctx):
    x = ctx.int("x")
    ctx.assume(x > 0)
    ctx.assume(x < 0)
    ctx.ensure("anything", x == x + 1)


def strings(ctx):
    s = ctx.str("s")
    ctx.ensure("prefix", ("/" + s).startswith("/"))
    ctx.ensure("length", len(("/" + s).encode()) > 0 if not ctx.symbolic else True)


H = lambda f: harness.Harness(f, "X", f.__name__)
a, b, c, d = (harness.prove(H(f), 30) for f in (good, bad, vacuous, strings))
assert not a.failed and not a.undecided and a.obligations == a.discharged == 2, vars(a)
assert b.failed, "the verifier accepted a false obligation"
assert c.undecided, "a vacuous harness was accepted"
assert not d.failed and not d.undecided
print("selftest ok")
