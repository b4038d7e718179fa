"""The command line: which run is asked for (C15), and whether it is a dry run (C06)."""
import contextlib
import io
import os
import sys

from pyvc import rt
from pyvc.harness import harness

import fora
import fora.main as main

OPTS = [[], ["--dry"], ["--dry-run"], ["--pretend"]]


def declare(prop):
    @harness(prop, "command line", functions=["fora.main.main", "fora.main.ThrowingArgumentParser.error"], covers=["run", "refused"], enum=6000, samples=1500, seconds=60, prove=False,
             assumes=["bounded: every combination of the options that concern the run, in several orders, with listed values; argparse is used as is"])
    def cmdline(ctx):
        dry = ctx.choice("dry", OPTS)
        hosts = ctx.choice("hosts", [[], ["-H", "a,b"], ["--hosts", "b"], ["--hosts=a,,b"], ["-Ha"]])
        extra = ctx.choice("extra", [[], ["--diff"], ["--no-changes"], ["-v"], ["-vv", "--verbose"], ["--debug"], ["--no-color"], ["-v", "--diff", "--debug", "--no-changes", "--no-color"]])
        pos = ctx.choice("positional", [["inv.py", "deploy.py"], ["ssh://u@h:2", "d e/s.py"], ["--", "-inv", "-s"], ["inv.py"], ["a", "b", "c"], [], ["inv.py", "deploy.py", "--wrong"]])
        order = ctx.choice("order", [0, 1, 2])
        argv = {0: dry + hosts + extra + pos, 1: extra + hosts + dry + pos, 2: pos + hosts + dry + extra}[order]
        if "--" in pos:
            ctx.assume(order != 2)
        no_color = ctx.choice("NO_COLOR", [None, "", "1"])
        seen = []

        def main_run(_f, args):
            seen.append((args, fora.args))
        rt.CONTRACTS[("fora.main", "main_run")] = main_run
        rt.EXTERNALS[os.getenv] = lambda k, d=None: no_color if k == "NO_COLOR" and no_color is not None else d
        hook, old, av = sys.excepthook, fora.args, sys.argv
        fora.args = None
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                if ctx.choice("arguments", ["given", "of the process"]) == "given":
                    o = ctx.outcome(rt.call, main.main, argv)
                else:
                    sys.argv = ["fora"] + argv
                    o = ctx.outcome(rt.call, main.main)
        finally:
            sys.excepthook, fora.args, sys.argv = hook, old, av
        given = [p for p in pos if p != "--"]
        if len(given) != 2:
            ctx.cover("refused")
            ctx.ensure("a malformed command line is an error, and nothing is run", not seen and o.raised(SystemExit) and o.exc.code not in (None, 0), (argv, o))
            return
        ctx.cover("run")
        ctx.ensure("a well-formed command line runs the script once", o.returned and len(seen) == 1, (argv, o))
        if len(seen) != 1:
            return
        a, active = seen[0]
        ctx.ensure("operations see the options of the command line", active is a, argv)
        ctx.ensure("it is a dry run exactly if asked for", a.dry is bool(dry), argv)
        want = {"": None, "-H a,b": "a,b", "--hosts b": "b", "--hosts=a,,b": "a,,b", "-Ha": "a"}[" ".join(hosts)]
        ctx.ensure("exactly the given hosts are selected", a.hosts == want, (argv, a.hosts))
        ctx.ensure("the given inventory and script are used", (a.inventory, a.script) == tuple(given), argv)
        ctx.ensure("differences are shown exactly if asked for", a.diff is ("--diff" in extra) and a.changes is ("--no-changes" not in extra) and a.debug is ("--debug" in extra), argv)
