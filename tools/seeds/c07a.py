ID, PROP = "c07-ignored-failure", "C07"
F = "src/fora/operations/files.py"
EDITS = [(F, '                    conn.run(["rm", "-rf", "--", path])', '                    conn.run(["rm", "-rf", "--", path], check=False)')]
NEEDS = "removing a directory while the removal fails (busy or immutable content)"
BREAKS = "success and a change are reported although the directory is still there"
DEMO = '''
p = TMP + "/d"
os.mkdir(p)
c = connect()
from fora.operations import files
run = type(c).run
def failing(self, command, *a, **k):
    if command[0] == "rm":
        return run(self, ["false"], *a, **k)
    return run(self, command, *a, **k)
type(c).run = failing
try:
    ok = files.directory(p, present=False).success
except Exception:
    ok = False
finish(not ok, "removal that failed was reported as " + ("a success" if ok else "an error"))
'''
