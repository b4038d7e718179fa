ID, PROP = "c02-child-setup-fails", "C02"
F = "src/fora/connectors/tunnel_dispatcher.py"
EDITS = [(F, '''            conn.write_packet(PacketProcessError(str(e)))
            return
''', '''            conn.write_packet(PacketProcessError(str(e)))
            result = subprocess.CompletedProcess(self.command, -1)
''')]
NEEDS = "a command run as a user that may not enter its working directory, followed by another request"
BREAKS = "the remote answers twice, so every later request gets the answer of the previous one"
DEMO = '''
import pwd
os.chmod(TMP, 0o755)
d = TMP + "/private"
os.mkdir(d, 0o700)
c = connect()
try:
    c.run(["true"], user="nobody", cwd=d)
    refused = False
except Exception:
    refused = True
try:
    me = c.resolve_user("0")
    ok = me == "root"
except Exception as e:
    ok, me = False, e
finish(refused and ok, f"the request after a refused command is answered by {me!r}")
'''
