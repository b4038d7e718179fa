ID, PROP = "c03-primary-group", "C03"
F = "src/fora/connectors/tunnel_dispatcher.py"
EDITS = [(F, "    return (pw.pw_uid, pw.pw_gid)\n", "    return (pw.pw_uid, pw.pw_uid)\n")]
NEEDS = "a user whose primary group id differs from its user id, and no explicit group"
BREAKS = "commands run with the wrong group id"
DEMO = '''
import types, pwd
from fora.connectors import tunnel_dispatcher as T
u = next(p for p in pwd.getpwall() if p.pw_uid != p.pw_gid)
c = connect()
r = c.run(["id", "-g"], user=u.pw_name)
finish(r.stdout.strip() == str(u.pw_gid).encode(), f"id -g as {u.pw_name} (group {u.pw_gid}) printed {r.stdout!r}")
'''
