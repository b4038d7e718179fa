"""mkseed.py SEEDFILE...: plants each bug in /repo, confirms it (build, stable tests, demo), stores /verif/seeded/<id>, undoes it.
A seed file is Python: ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source using demolib)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(path, notest=False):
    ns = {}
    exec(open(path).read(), ns)
    d = f"{V}/seeded/{ns['ID']}"
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.py", "w").write("from demolib import *\n" + ns["DEMO"])
    shutil.copy(T + "/demolib.py", d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH LANG=C.UTF-8\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode != 0:
        return f"demo fails on the unchanged tree: {r.stdout[-1500:]}"
    try:
        for f, old, new in ns["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build " + b.stdout
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode == 0:
            return f"demo passes with the patch: {r.stdout[-800:]}"
        out = r.stdout.strip().splitlines()[-1:]
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = set(json.load(open("/tmp/seedtest.json"))["passed"])
            lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - t
            if lost:
                return f"tests notice: {sorted(lost)[:4]}"
        q = sh(f"python3-vt {V}/check.py {ns['PROP']}")
        return f"kept; demo: {out}; check exit {q.returncode}: {[l for l in q.stdout.splitlines() if 'VIOLATION' in l][:2]}"
    finally:
        sh("git -C /repo checkout -- .")


for a in [x for x in sys.argv[1:] if x != "--notest"]:
    try:
        m = one(a, "--notest" in sys.argv)
    except Exception as e:
        m = f"error {e!r}"
    print(os.path.basename(a), m, flush=True)
    if not m.startswith("kept"):
        ns = {}
        exec(open(a).read(), ns)
        shutil.rmtree(f"{V}/seeded/{ns['ID']}", ignore_errors=True)
