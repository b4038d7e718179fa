"""Common part of the demonstrations: a local connection, everything inside a scratch directory."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import fora
import fora.loader
from fora.connection import Connection
from fora.types import ScriptWrapper

TMP = tempfile.mkdtemp(prefix="demo")


class A:
    debug, diff, dry, changes, verbose, no_color = False, False, False, True, 0, True


def connect(dry=False):
    fora.args = A()
    fora.args.dry = dry
    import contextlib, io
    fora.loader.load_inventory("local:localhost")
    h = list(fora.inventory.loaded_hosts.values())[0]
    fora.host = h
    fora.script = ScriptWrapper("demo")
    class E: pass
    fora.script.wrap(E())
    c = Connection(h)
    c.__enter__()
    return c


def finish(ok, what):
    shutil.rmtree(TMP, ignore_errors=True)
    print(("ok: " if ok else "BROKEN: ") + what, file=sys.stderr)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
