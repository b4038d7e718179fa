ID, PROP = "c04-unknown-group", "C04"
F = "src/fora/connectors/tunnel_dispatcher.py"
EDITS = [(F, "            group = str(s.st_gid)\n", "            group = str(s.st_uid)\n")]
NEEDS = "a file whose group id has no entry in the group database and differs from its owner id"
BREAKS = "stat reports the owner's number as the group"
DEMO = '''
p = TMP + "/f"
open(p, "w").close()
os.chown(p, 0, 54321)
c = connect()
s = c.stat(p)
finish(s.group == "54321", f"group reported: {s.group}")
'''
