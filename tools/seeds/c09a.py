ID, PROP = "c09-gid-zero", "C09"
F = "src/fora/operations/system.py"
EDITS = [(F, 'if op.changed("gid") and target_gid is not None:', 'if op.changed("gid") and target_gid:')]
NEEDS = "an existing group that is requested to have gid 0"
BREAKS = "success and a change are reported, but the group keeps its gid"
DEMO = '''
c = connect()
from fora.operations import system
ran = []
class Entry:
    name, gid, members = "g", 5, []
class Stand:
    def query_group(self, group, default=None):
        return Entry
    def run(self, command, *a, **k):
        ran.append(command)
        if command[0] == "groupmod" and "--gid" in command:
            Entry.gid = int(command[command.index("--gid") + 1])
fora.host.connection = Stand()
r = system.group("g", gid=0)
finish(Entry.gid == 0, f"gid is {Entry.gid} after success={r.success}")
'''
