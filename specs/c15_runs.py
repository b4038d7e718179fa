"""C15: a run visits exactly the selected hosts, one after the other, and leaves no connection open."""
import io
import subprocess

import z3

from pyvc import core, rt, sym
from pyvc.core import PathEnd
from pyvc.harness import harness
from pyvc.sym import force
from specs import cmdline
from specs import serverlib as S
from specs import wirelib as W
from specs.wirelib import td

import fora
import fora.main as main
import fora.types as ftypes
from fora.inventory_wrapper import InventoryWrapper
from fora.utils import FatalError

M, CN, T = "fora.main.", "fora.connection.", "fora.connectors.tunnel_connector."
FUN = [M + "main_run", CN + "open_connection", CN + "Connection.__init__", CN + "Connection.__enter__", CN + "Connection.__exit__", CN + "Connection._resolve_identity",
       T + "TunnelConnector.open", T + "TunnelConnector.close", T + "TunnelConnector._request", T + "TunnelConnector.resolve_user", T + "TunnelConnector.resolve_group",
       "fora.types.HostWrapper.create_connector", "fora.connectors.local.LocalConnector.command"]


class Interrupt(BaseException):
    """Ctrl-C, or any other exception that is no ordinary error."""


class Buf:
    def __init__(self):
        self.data = b""

    def write(self, d):
        self.data += bytes(d)
        return len(d)

    def flush(self):
        pass


def encode(p):
    b = Buf()
    td.Connection(io.BytesIO(), b).write_packet(p)
    return b.data


class Stdin:
    """The buffered pipe to a process: nothing arrives before a flush."""

    def __init__(self, proc):
        self.proc, self.pending, self.closed = proc, b"", False

    def write(self, d):
        if self.closed:
            raise ValueError("write to closed file")
        self.pending += bytes(d)
        return len(d)

    def flush(self):
        if self.closed:
            raise ValueError("flush of closed file")
        if self.pending and self.proc.dead:
            raise BrokenPipeError(32, "Broken pipe")
        d, self.pending = self.pending, b""
        if d:
            self.proc.received(d)

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            self.proc.eof()

    def fileno(self):
        return 1


class Stdout:
    def __init__(self, proc):
        self.proc, self.closed = proc, False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("read of closed file")
        if self.proc.interrupt:
            self.proc.interrupt = False
            raise Interrupt()
        out = self.proc.out
        if n < 0 or n > len(out):
            if self.proc.dead:
                self.proc.out = b""
                return out
            raise Deadlock("reads an answer that never comes")
        self.proc.out = out[n:]
        return out[:n]

    def close(self):
        self.closed = True
        if self.proc.blocked:       # broken pipe
            self.proc.blocked = False
            self.proc.die()

    def fileno(self):
        return 0


class Deadlock(AssertionError):
    pass


class Proc:
    """A dispatcher process; it misbehaves at one of the requests."""

    def __init__(self, world, host, command, fault):
        self.world, self.host, self.args, self.fault = world, host, command, fault
        self.stdin, self.stdout, self.stderr = Stdin(self), Stdout(self), None
        self.out, self.dead, self.interrupt, self.told, self.waited = b"", False, False, False, False
        self.returncode, self.pid, self.n = None, 4242, 0
        self.inbuf = b""
        self.killed = False
        self.blocked = False        # writes an answer that does not fit into the pipe

    @property
    def ended(self):
        """Nothing of it will be left: it is gone, or was told to go and is waited for."""
        return self.killed or (self.dead and self.stdin.closed or self.told) and self.waited

    def die(self):
        self.dead = True
        if self.returncode is None:
            self.world.code = 255

    def received(self, d):
        if self.blocked:
            return
        self.inbuf += d
        i = io.BytesIO(self.inbuf)
        try:
            p = td.receive_packet(td.Connection(i, Buf()))
        except OSError:
            return
        self.inbuf = self.inbuf[i.tell():]
        self.world.ctx.ensure("only complete requests are sent", not self.inbuf)
        if isinstance(p, td.PacketExit):
            self.told = self.dead = True
            return
        n, self.n = self.n, self.n + 1
        a = td.PacketAck() if isinstance(p, td.PacketCheckAlive) else \
            td.PacketResolveResult(value=f"user-{self.host}" if isinstance(p, td.PacketResolveUser) else f"group-{self.host}")
        if self.fault and self.fault[0] == n:
            k = self.fault[1]
            self.world.hit = True
            if k == "dies":
                return self.die()
            if k == "half an answer":
                self.out += encode(a)[:-1]
                return self.die()
            if k == "interrupt":
                self.interrupt = True
            elif k == "garbage":
                self.out += b"\xff" * 64
                return self.die()
            else:
                a = {"os error": td.PacketOSError(msg="m", errno=13, strerror="denied"), "refused": td.PacketInvalidField(field="user", error_message="no such user"),
                     "another answer": td.PacketOk()}[k]
                if k == "refused" and n == 2:
                    a = td.PacketInvalidField(field="group", error_message="no such group")
        self.out += encode(a)

    def eof(self):
        if not self.blocked:
            self.dead = True

    def poll(self):
        if self.dead:
            self.returncode = 0 if self.told else 255
        return self.returncode

    def wait(self, timeout=None):
        if self.blocked and not self.dead:
            if timeout is not None:
                raise subprocess.TimeoutExpired(self.args, timeout)
            raise Deadlock("waits for a process whose answer nobody reads")
        if not self.dead:
            raise Deadlock("waits for a process that was not told to exit")
        self.waited = True
        return self.poll()

    def terminate(self):
        self.killed = self.dead = True

    kill = terminate

    def communicate(self, input=None, timeout=None):
        if input:
            self.stdin.write(input)
        self.stdin.close()
        if self.blocked:
            self.blocked, self.dead = False, True
        self.wait()
        return self.out, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stdout.close()
        self.stdin.close()
        self.wait()


class World:
    def __init__(self, ctx, hosts, fault):
        self.ctx, self.hosts, self.fault, self.hit = ctx, hosts, fault, False
        self.procs = []
        self.current = None

    def Popen(self, command, *a, **k):
        host = command[-1]
        self.ctx.ensure("one connection at a time", all(p.ended for p in self.procs), [p.host for p in self.procs])
        f = self.fault if self.fault and self.fault[2] == host else None
        if f and f[1] == "does not start":
            self.hit = True
            raise FileNotFoundError(2, "No such file or directory", "ssh")
        p = Proc(self, host, command, f)
        self.procs.append(p)
        return p

    def install(self):
        import os
        rt.EXTERNALS[subprocess.Popen] = self.Popen
        rt.ALLOW_REAL.update({os.path.realpath, os.path.abspath})
        for n in ("connection_init", "connection_failed", "connection_established"):
            if self.ctx.symbolic:
                rt.CONTRACTS[("fora.logger", n)] = lambda f, *a, **k: None


FAULTS = [None, (0, "does not start"), (0, "dies"), (0, "half an answer"), (0, "garbage"), (0, "os error"), (0, "another answer"), (0, "interrupt"),
          (1, "dies"), (1, "half an answer"), (1, "os error"), (1, "refused"), (1, "another answer"), (1, "interrupt"),
          (2, "dies"), (2, "refused"), (2, "another answer"), (2, "interrupt"), (3, "dies while the script runs")]


def run(ctx, fn, *a):
    try:
        return ctx.outcome(fn, *a)
    except Interrupt as e:
        return core.Outcome(exc=e)


def make_host(inv, name):
    from fora.connectors.local import LocalConnector

    class Conn(LocalConnector):
        def command(self):
            return super().command() + [name]
    h = ftypes.HostWrapper(inv, name, f"local:{name}")
    h.connector = Conn
    return h


@harness("C15", "selected hosts", functions=FUN, covers=["visited", "unknown", "connection failed", "script failed"], enum=4000, samples=2500, seconds=100,
         assumes=["load_inventory and run_script by their contracts (C12, C13): the inventory has three hosts, the script does anything and ends in any way",
                  "a dispatcher process answers requests in order, may misbehave at any request and ends when told to, killed, or when its input is closed"])
def selected(ctx):
    td.is_server = False
    names = ["a", "bb", "c"]
    inv = InventoryWrapper()
    inv._is_initialized = True
    inv.loaded_hosts = {}
    for n in names:
        inv.loaded_hosts[n] = make_host(inv, n)
    hosts = dict(inv.loaded_hosts)

    # the selection: everything, or a list of up to three arbitrary names
    nsel = ctx.choice("selected names", [None, 1, 2, 3])
    if nsel is None:
        arg, want, unknown = None, list(names), False
    else:
        sel = [ctx.str(f"name {i}", dom=["a", "bb", "c", "d", ""]) for i in range(nsel)]
        arg = sel[0]
        for s in sel:
            if ctx.symbolic:
                ctx.assume(sym.SymBool(z3.Not(z3.Contains(s.z, z3.StringVal(",")))))
        for s in sel[1:]:
            arg = arg + "," + s
        want, unknown = [], False
        for s in sel:
            k = next((n for n in names if bool(s == n)), None)
            if k is None:
                unknown = True
                break
            if k not in want:
                want.append(k)
    bad_inventory = ctx.choice("invalid inventory", [False, True]) if nsel is None else False
    f = None
    end, where = "ends", None
    if not unknown and not bad_inventory:
        where = ctx.choice("failing host", [None] + want) if want else None
        if where is not None:
            end = ctx.choice("script", ["ends", "fails", "exits", "interrupted", "interrupted inside an answer"])
            f = ctx.choice("fault", FAULTS if end == "ends" else [None, FAULTS[-1]])
            if f is not None:
                f = f + (where,)
    world = World(ctx, hosts, f)
    world.install()
    fora.args = S.Args(debug=False, dry=False, verbose=0, changes=False, diff=False, no_color=True, hosts=arg, inventory="inventory.py", script="deploy.py")
    fora.host = None
    fora.inventory = None
    visited = []
    thrown = []

    def load_inventory(_f, x):
        ctx.ensure("the given inventory is loaded", x == "inventory.py", x)
        if bad_inventory:
            raise FatalError("bad", loc="inventory.py")
        fora.inventory = inv

    def run_script(_f, script, frame, params=None, name=None):
        ctx.ensure("the given script is run", script == "deploy.py", script)
        h = fora.host
        visited.append(h.name if h is not None else None)
        k = visited[-1]
        ctx.ensure("the script runs for one of the selected hosts", k in hosts and h is hosts[k], h)
        if k not in hosts:
            raise PathEnd()
        ctx.ensure("the host is connected while its script runs", h.connection is not None and h.connection.host is h and len(world.procs) > 0
                   and world.procs[-1].host == k and not world.procs[-1].ended, h.connection)
        ctx.ensure("no other host is connected", all(o.connection is None for n, o in hosts.items() if n != k))
        if h.connection is not None:
            b = h.connection.base_settings
            ctx.ensure("commands run as the user of the connection", (b.as_user, b.as_group, b.owner, b.group) == (f"user-{k}", f"group-{k}", f"user-{k}", f"group-{k}"), b)
        if k == where:
            if f and f[0] == 3:
                world.hit = True
                world.procs[-1].die()
            if end == "interrupted inside an answer" and not world.procs[-1].dead:
                world.procs[-1].blocked = True
            if end != "ends":
                e = {"fails": RuntimeError("script"), "exits": SystemExit(3), "interrupted": Interrupt(), "interrupted inside an answer": Interrupt()}[end]
                thrown.append(e)
                raise e
    rt.CONTRACTS[("fora.loader", "load_inventory")] = load_inventory
    rt.CONTRACTS[("fora.loader", "run_script")] = run_script
    o = run(ctx, rt.call, main.main_run, fora.args)
    ctx.ensure("never waits forever", not isinstance(o.exc, Deadlock), o)
    for p in world.procs:
        ctx.ensure("every connection is closed", p.ended, (p.host, p.told, p.killed, p.waited, f, end))
    ctx.ensure("no host is active after a run", fora.host is None, fora.host)
    ctx.ensure("no host is connected after a run", all(h.connection is None for h in hosts.values()))
    if bad_inventory or unknown:
        ctx.cover("unknown")
        ctx.ensure("an unknown host or invalid inventory is an error", o.raised(SystemExit) and o.exc.code not in (None, 0), o)
        ctx.ensure("then no host is touched", not world.procs and not visited, visited)
        return
    bad_conn = world.hit and f[0] < 3
    if bad_conn:
        ctx.cover("connection failed")
        ctx.ensure("a failed connection is an error", not o.returned, (o, f))
        ctx.ensure("the script is not run without a connection", visited == want[:want.index(where)], (visited, f))
    elif thrown:
        ctx.cover("script failed")
        ctx.ensure("an error of the script ends the run unchanged", o.exc is thrown[0], (o, f))
        ctx.ensure("hosts are visited in order up to the failure", visited == want[:want.index(where) + 1], visited)
    else:
        ctx.cover("visited")
        ctx.ensure("every selected host is visited exactly once, in order", visited == want or (not o.returned and f is not None), (visited, want, o))
        ctx.ensure("a run without failures succeeds", o.returned or f is not None, o)

cmdline.declare("C15")
