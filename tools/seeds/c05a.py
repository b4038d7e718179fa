ID, PROP = "c05-group-only", "C05"
F = "src/fora/operations/files.py"
EDITS = [(F, '''                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])

                # Set correct owner and group, if needed
                if op.changed("owner") or op.changed("group"):
''', '''                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])

                # Set correct owner and group, if needed
                if op.changed("owner") or op.changed("exists"):
''')]
NEEDS = "an existing directory with the right owner and the wrong group"
BREAKS = "the group of the directory is not changed although success is reported"
DEMO = '''
p = TMP + "/d"
os.mkdir(p)
os.chown(p, 0, 1)
c = connect()
from fora.operations import files
files.directory(p, mode="700", owner="root", group="root")
finish(os.stat(p).st_gid == 0, f"gid {os.stat(p).st_gid if os.path.exists(p) else None}")
'''
