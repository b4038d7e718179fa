ID, PROP = "c17-new-submodules", "C17"
F = "src/fora/operations/git.py"
EDITS = [(F, 'submodule_update_cmd = ["git", "-C", path, "submodule", "update", "--init"]', 'submodule_update_cmd = ["git", "-C", path, "submodule", "update"]')]
NEEDS = "a pull that brings in a submodule which the clone did not have before"
BREAKS = "success is reported although the requested submodule is missing"
DEMO = '''
import subprocess
def git(*a, cwd=None):
    subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "-c", "protocol.file.allow=always", "-c", "init.defaultBranch=main", *a], cwd=cwd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
os.environ["GIT_CONFIG_COUNT"] = "1"
os.environ["GIT_CONFIG_KEY_0"] = "protocol.file.allow"
os.environ["GIT_CONFIG_VALUE_0"] = "always"
for n in ("sub", "repo"):
    git("init", TMP + "/" + n)
    git("commit", "--allow-empty", "-m", "1", cwd=TMP + "/" + n)
open(TMP + "/sub/f", "w").write("x")
git("add", "f", cwd=TMP + "/sub")
git("commit", "-m", "2", cwd=TMP + "/sub")
c = connect()
from fora.operations import git as g
with fora.script.defaults(umask="022"):
    g.repo(url=TMP + "/repo", path=TMP + "/clone", update_submodules=True)
    git("submodule", "add", TMP + "/sub", "s", cwd=TMP + "/repo")
    git("commit", "-m", "3", cwd=TMP + "/repo")
    r = g.repo(url=TMP + "/repo", path=TMP + "/clone", update_submodules=True)
ok = r.success and os.path.exists(TMP + "/clone/s/f")
finish(ok, "the new submodule is " + ("there" if ok else "missing"))
'''
