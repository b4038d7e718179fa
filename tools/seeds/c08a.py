ID, PROP = "c08-directory-through-link", "C08"
F = "src/fora/operations/files.py"
EDITS = [(F, '''            if stat.type != "dir":
                return op''', '''            if stat.type not in ("dir", "link"):
                return op''')]
NEEDS = "managing a directory at a path that is a symbolic link"
BREAKS = "the directory the link points to is changed instead of refusing"
DEMO = '''
os.mkdir(TMP + "/real")
os.chmod(TMP + "/real", 0o755)
os.symlink("real", TMP + "/d")
c = connect()
from fora.operations import files
try:
    files.directory(TMP + "/d", mode="700")
    done = True
except Exception:
    done = False
m = os.stat(TMP + "/real").st_mode & 0o7777
finish(not done and m == 0o755, f"the target's mode is {oct(m)}")
'''
