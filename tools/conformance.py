"""Compares the assumed contracts of the file tools (specs/oplib.World) with the real tools, in a scratch directory.
Run by hand (needs root for chown): python3-vt tools/conformance.py [N].  Nothing of the repository runs here."""
import os, random, shutil, stat, subprocess, sys, tempfile, pwd, grp
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc import core, harness, transform
transform.install(os.environ.get("VERIF_REPO", "/repo"))
from pyvc.core import ConcreteCtx, RandomSource, Unsupported
from specs import oplib

N = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
R = random.Random(int(os.environ.get("VERIF_SEED", "1")))
OWN, GRP = ["root", "daemon", "nobody"], ["root", "daemon", "nogroup"]
MODES = [0, 0o644, 0o600, 0o755, 0o4755, 0o2755, 0o6755, 0o2745, 0o4644, 0o2644, 0o1777, 0o7777]


def make(path):
    t = R.choice([None, "file", "dir", "link", "other"])
    if t is None:
        return oplib.Obj()
    o = oplib.Obj(type=t, mode=R.choice(MODES), owner=R.choice(OWN), group=R.choice(GRP))
    if t == "file":
        o.content = R.choice([b"", b"x\n", b"\xff"])
        open(path, "wb").write(o.content)
    elif t == "dir":
        os.mkdir(path)
        if R.random() < .3:
            open(path + "/inner", "w").close()
    elif t == "link":
        o.target = R.choice(["nowhere", "d", "f", "-n"])
        os.symlink(o.target, path)
    else:
        os.mkfifo(path)
    os.lchown(path, pwd.getpwnam(o.owner).pw_uid, grp.getgrnam(o.group).gr_gid)
    if t != "link":
        os.chmod(path, o.mode)
    return o


def look(path):
    try:
        s = os.lstat(path)
    except OSError:
        return oplib.Obj()
    t = {stat.S_IFREG: "file", stat.S_IFDIR: "dir", stat.S_IFLNK: "link"}.get(stat.S_IFMT(s.st_mode), "other")
    return oplib.Obj(type=t, mode=stat.S_IMODE(s.st_mode), owner=pwd.getpwuid(s.st_uid).pw_name, group=grp.getgrgid(s.st_gid).gr_name,
                     content=open(path, "rb").read() if t == "file" else None, target=os.readlink(path) if t == "link" else None)


def commands(p, q):
    m = R.choice(["644", "0644", "00644", "4755", "04755", "2755", "00755", "755", "0", "888", "10000", "", "-1", "abc"])
    o = R.choice(["root:root", "daemon:", ":nogroup", "nobody", "None", "no such", "root:no such", ":"])
    dd = R.choice([["--"], []])
    return R.choice([["mkdir"] + dd + [p], ["touch"] + R.choice([[], ["-h"], ["--no-dereference"]]) + dd + [p], ["chmod"] + dd + [m, p],
                     ["chown"] + R.choice([[], ["-h"], ["--no-dereference"]]) + dd + [o, p], ["rm"] + R.choice([[], ["-f"], ["-r"], ["-rf"]]) + dd + [p],
                     ["ln"] + R.choice([["-s"], ["-sf"], ["-sfn"], ["-sfT"], ["-sT"], ["-sn"]]) + dd + [R.choice(["t", "d", "-x" if dd else "x"]), p],
                     ["readlink"] + R.choice([[], ["-n"]]) + dd + [p], ["cp"] + R.choice([["-a"], ["-aT"]]) + dd + [p, q]])


bad = skipped = excess = 0
stats = {}
for i in range(N):
    d = os.path.realpath(tempfile.mkdtemp(prefix="conf"))
    try:
        os.mkdir(d + "/d")
        open(d + "/f", "w").close()
        p, q = d + "/p", d + "/q"
        a, b = make(p), make(q)
        before = (a.copy(), b.copy())
        cmd = commands(p, q)
        w = oplib.World(ConcreteCtx(RandomSource(random.Random(i))), faults=False)
        w.put(p, **vars(a))
        w.put(q, **vars(b))
        w.put(d + "/d", type="dir", mode=0o755, owner="root", group="root")
        try:
            got = w.run(cmd, check=False)
        except Unsupported:
            skipped += 1
            continue
        if [x for x in w.log if isinstance(x, str)]:       # an effect the contracts of the operations never allow
            skipped += 1
            continue
        if cmd[0] == "cp" and "other" in (a.type, before[0].type, before[1].type):      # blocks
            continue
        real = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, cwd=d, timeout=20)
        why = []
        if cmd[0] == "chmod" and "-1" in cmd and got.returncode:
            continue
        if got.returncode == 0 and real.returncode != 0:
            excess += 1        # the contracts cover it: any command may also fail
            if look(p).type == before[0].type and look(q).type == before[1].type:
                continue
        if (got.returncode == 0) != (real.returncode == 0):
            why.append(f"exit {got.returncode} / {real.returncode} {real.stderr}")
        elif cmd[0] == "readlink" and got.returncode == 0 and got.stdout != real.stdout:
            why.append(f"output {got.stdout} / {real.stdout}")
        for path, old in ((p, before[0]), (q, before[1])):
            g, r = w.at(path), look(path)
            new = g.type is not None and old.type is None or cmd[0] == "ln" and g.type == "link"
            for f in ("type", "content", "target", "mode", "owner", "group"):
                if f == "group" and cmd[0] == "chown" and "daemon:" in cmd or f == "mode" and cmd[0] == "chmod" and "-1" in cmd:
                    continue       # left open
                if f in ("mode", "owner", "group") and (new or g.type == "link" and f == "mode"):
                    continue
                if f == "content" and g.type != "file" or f == "target" and g.type != "link":
                    continue
                if g.type is None and f != "type":
                    continue
                if getattr(g, f) != getattr(r, f):
                    why.append(f"{path[-1]}.{f}: {getattr(g, f)!r} / {getattr(r, f)!r}")
        stats[cmd[0]] = stats.get(cmd[0], 0) + 1
        if why:
            bad += 1
            if bad < 15:
                print([x.replace(d, "") for x in cmd], "|", before, "|", why)
    finally:
        shutil.rmtree(d)
print(f"{N} commands, {skipped} outside the contracts, {excess} failures the tool has and the contract leaves open, {bad} disagreements (contract / tool)", stats)
