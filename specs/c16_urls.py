"""C16: which machine a host declaration denotes: connector, name and destination."""
import builtins
import io
import os
import shutil
import subprocess
import tempfile

import z3

from pyvc import rt, sym
from pyvc.harness import harness
from specs import serverlib as S
from specs.c15_runs import encode
from specs.wirelib import td

import fora
import fora.types as ftypes
from fora.connectors.connector import Connector
from fora.connectors.local import LocalConnector
from fora.connectors.ssh import SshConnector
from fora.inventory_wrapper import InventoryWrapper
from fora.utils import FatalError

I, H = "fora.inventory_wrapper.InventoryWrapper.", "fora.types.HostWrapper."
SS, LC = "fora.connectors.ssh.SshConnector.", "fora.connectors.local.LocalConnector."


def without(ctx, t, chars, nonempty=False):
    """Assume that a text has none of the characters."""
    if ctx.symbolic:
        if isinstance(t, sym.Sym):
            for c in chars:
                ctx.assume(sym.SymBool(z3.Not(z3.Contains(t.z, z3.StringVal(c)))))
            if nonempty:
                ctx.assume(t != "")
    else:
        ctx.assume(not any(c in t for c in chars) and (not nonempty or t != ""))
    return t


HOSTS = ["h", "host.example.com", "-oProxy", "ä", "10.0.0.1", "s", "ssh"]
USERS = ["root", "", "a-b", "u:pw"]


def ssh_url(ctx):
    """(url, host): ssh:[//][user@]host[:port]"""
    host = without(ctx, ctx.str("host", dom=HOSTS), "@:/[]", nonempty=True)
    name = host
    if ctx.choice("bracketed address", [False, True]):
        a = without(ctx, ctx.str("address", dom=["::1", "fe80::1%eth0"]), "@/[]", nonempty=True)
        name, host = a, "[" + a + "]"
    url = "ssh:" + ("//" if ctx.choice("slashes", [True, False]) else "")
    if ctx.choice("user given", [False, True]):
        url = url + without(ctx, ctx.str("user", dom=USERS), "@/") + "@"
    url = url + host
    if ctx.choice("port given", [False, True]):
        url = url + ":" + without(ctx, ctx.str("port", dom=["22", "2222", ""]), "@:/")
    return url, name


@harness("C16", "ssh names", functions=[I + "extract_hostname", SS + "extract_hostname"], covers=["named"], enum=600, samples=200)
def ssh_names(ctx):
    url, name = ssh_url(ctx)
    via = ctx.choice("by", ["connector", "inventory"])
    o = ctx.outcome(rt.call, SshConnector.extract_hostname, url) if via == "connector" else ctx.outcome(rt.callm, InventoryWrapper(), "extract_hostname", url)
    ctx.cover("named")
    ctx.ensure("an ssh url names its host", o.returned and o.value == name, (o, url, name))


@harness("C16", "local names", functions=[I + "extract_hostname", LC + "extract_hostname"], covers=["named"], enum=100, samples=100)
def local_names(ctx):
    n = ctx.str("name", dom=["", "me", "my:self", "a@b"])
    if ctx.symbolic:
        without(ctx, n, ":")
    via = ctx.choice("by", ["connector", "inventory"])
    o = ctx.outcome(rt.call, LocalConnector.extract_hostname, "local:" + n) if via == "connector" else ctx.outcome(rt.callm, InventoryWrapper(), "extract_hostname", "local:" + n)
    ctx.cover("named")
    want = n if bool(n != "") else "localhost"
    ctx.ensure("a local url names this machine, or as it says", o.returned and o.value == want, (o, n))


@harness("C16", "other urls have no name", functions=[I + "extract_hostname", SS + "extract_hostname", LC + "extract_hostname"], covers=["refused"], enum=200, samples=100)
def no_names(ctx):
    kind = ctx.choice("url", ["no schema", "unknown schema"])
    s = without(ctx, ctx.str("schema", dom=["", "http", "sshx", "ss", "SSH", "locale"]), ":")
    rest = without(ctx, ctx.str("rest", dom=["//h", "h", ""]), ":")
    if kind == "no schema":
        url = s
    else:
        ctx.assume(s != "ssh")
        ctx.assume(s != "local")
        url = s + ":" + rest
    ctx.cover("refused")
    o = ctx.outcome(rt.callm, InventoryWrapper(), "extract_hostname", url)
    ctx.ensure("a url that no connector understands has no name", o.raised(ValueError), (o, url))
    for c in (SshConnector, LocalConnector):
        o = ctx.outcome(rt.call, c.extract_hostname, url)
        ctx.ensure("a connector does not name the url of another one", o.raised(ValueError), (o, url))


@harness("C16", "qualification", functions=[I + "qualify_url"], covers=["ssh", "kept"], enum=200, samples=100)
def qualification(ctx):
    a = without(ctx, ctx.str("before", dom=["h", "", "user@h", "local", "ssh"]), ":")
    if ctx.choice("has a schema", [False, True]):
        url = a + ":" + ctx.str("after", dom=["", "//h", "h:22", "22"])
        ctx.cover("kept")
        o = ctx.outcome(rt.callm, InventoryWrapper(), "qualify_url", url)
        ctx.ensure("a url with a schema is used as it is", o.returned and o.value == url, (o, url))
    else:
        ctx.cover("ssh")
        o = ctx.outcome(rt.callm, InventoryWrapper(), "qualify_url", a)
        ctx.ensure("a url without a schema is an ssh host", o.returned and o.value == "ssh://" + a, (o, a))


class Other(Connector):
    pass


@harness("C16", "connector of a host", functions=[H + "create_connector", SS + "__init__", LC + "__init__"], covers=["explicit", "schema", "refused"], enum=600, samples=200)
def connector_of(ctx):
    inv = InventoryWrapper()
    h = ftypes.HostWrapper(inv, "h", None)
    kind = ctx.choice("url", ["none", "no schema", "unknown schema", "ssh", "ssh short", "local"])
    rest = ctx.str("rest", dom=["h", "root@h:22", "", "[::1]"])
    s = without(ctx, ctx.str("schema", dom=["", "http", "sshx", "SSH"]), ":")
    if ctx.symbolic:
        ctx.assume(s != "ssh")
        ctx.assume(s != "local")
    h.url = {"none": None, "no schema": s, "unknown schema": s + ":" + rest, "ssh": "ssh://" + rest, "ssh short": "ssh:" + rest, "local": "local:" + rest}[kind]
    if kind == "ssh short":
        ctx.assume(not bool(rest.startswith("//")))
    if ctx.choice("explicit connector", [False, True]):
        ctx.cover("explicit")
        h.connector = Other
        o = ctx.outcome(rt.callm, h, "create_connector")
        ctx.ensure("an explicit connector is used for any url", o.returned and type(o.value) is Other and (o.value.url is h.url or o.value.url == h.url) and o.value.host is h, o)
        return
    o = ctx.outcome(rt.callm, h, "create_connector")
    if kind in ("none", "no schema", "unknown schema"):
        ctx.cover("refused")
        ctx.ensure("a host that no connector can reach is an error", o.raised(FatalError), (o, h.url))
        return
    ctx.cover("schema")
    ctx.ensure("the schema of the url selects the connector", o.returned and type(o.value) is (LocalConnector if kind == "local" else SshConnector) and o.value.host is h, o)
    if kind != "local":
        ctx.ensure("ssh connects to the destination of the url", o.value.url == "ssh://" + rest, (o.value.url, h.url))


_ran = {}


def start(payload):
    """What a remote shell makes of the command, with python3 as its only interpreter."""
    if payload in _ran:
        return _ran[payload]
    d = tempfile.mkdtemp()
    try:
        for t in ("env", "python3", "base64", "cat", "printf", "sh"):
            src = shutil.which(t)
            if src:
                os.symlink(src, f"{d}/{t}")
        p = subprocess.run(["/bin/sh", "-c", payload], input=encode(td.PacketCheckAlive()) + encode(td.PacketExit()), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d,
                           env={"PATH": d}, timeout=60)
        _ran[payload] = (p.returncode, p.stdout, b"" if p.returncode == 0 else p.stderr[-300:])
    finally:
        shutil.rmtree(d)
    return _ran[payload]


@harness("C16", "ssh command", functions=[SS + "__init__", SS + "command"], covers=["started"], enum=200, samples=100,
         assumes=["ssh takes its options, then the destination, then a command it has a shell run on the destination",
                  "the text of the remote command does not depend on the host, so running it once with /bin/sh decides it"])
def ssh_command(ctx):
    inv = InventoryWrapper()
    rest = ctx.str("destination", dom=["h", "root@h:22"])
    opts = ctx.choice("options", [None, [], ["-v"], ["-i", "x y", "-p22"]])
    h = ftypes.HostWrapper(inv, "h", "ssh://" + rest)
    if opts is not None:
        h.ssh_opts = list(opts)
    debug = ctx.choice("debug", [False, True])
    fora.args = S.Args(debug=debug, dry=False, verbose=0, changes=False, diff=False, no_color=True)
    rt.ALLOW_REAL.update({builtins.open, os.path.realpath})
    c = rt.callm(h, "create_connector")
    before = list(opts or [])
    cmd = rt.callm(c, "command")
    again = rt.callm(c, "command")
    ctx.cover("started")
    ctx.ensure("ssh is started with the options of the host, its destination and the dispatcher", isinstance(cmd, list) and len(cmd) == 3 + len(before) and cmd[0] == "ssh"
               and cmd[1:1 + len(before)] == before and bool(cmd[-2] == "ssh://" + rest), cmd[:-1])
    ctx.ensure("the command is the same every time", len(again) == len(cmd) and again[-1] == cmd[-1] and bool(again[-2] == cmd[-2]) and again[:-2] == cmd[:-2])
    ctx.ensure("the remote command is plain text", type(cmd[-1]) is str)
    r = start(cmd[-1])
    ctx.ensure("the remote command runs the dispatcher, which answers and exits", r[0] == 0 and r[1] == encode(td.PacketAck()), r)
    ctx.ensure("the debug option is passed on", debug == ("--debug" in cmd[-1].split()))


@harness("C16", "local command", functions=[LC + "__init__", LC + "command"], covers=["started"], enum=20, samples=10)
def local_command(ctx):
    inv = InventoryWrapper()
    h = ftypes.HostWrapper(inv, "h", "local:" + ctx.str("name", dom=["h", ""]))
    debug = ctx.choice("debug", [False, True])
    fora.args = S.Args(debug=debug, dry=False, verbose=0, changes=False, diff=False, no_color=True)
    rt.ALLOW_REAL.update({builtins.open, os.path.realpath, os.path.abspath})
    c = rt.callm(h, "create_connector")
    cmd = rt.callm(c, "command")
    ctx.cover("started")
    key = tuple(cmd)
    if key not in _ran:
        p = subprocess.run(cmd, input=encode(td.PacketCheckAlive()) + encode(td.PacketExit()), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        _ran[key] = (p.returncode, p.stdout)
    ctx.ensure("the command runs the dispatcher, which answers and exits", _ran[key] == (0, encode(td.PacketAck())), _ran[key])
    ctx.ensure("the debug option is passed on", debug == ("--debug" in cmd))
