ID, PROP = "c15-only-io-errors", "C15"
F = "src/fora/connectors/tunnel_connector.py"
EDITS = [(F, '''            raise
        finally:
            # If the connection failed for any reason, be sure to kill the background process.
            if not self.is_open:
                self.process.terminate()
                self.process = None
''', '''            self.process.terminate()
            self.process = None
            raise
''')]
NEEDS = "the run being interrupted, or garbage arriving, while the connection is being established"
BREAKS = "the dispatcher process stays behind"
DEMO = '''
import subprocess
import fora.connectors.tunnel_connector as tc
fora.args = A()
started = []
real = subprocess.Popen
def spawn(*a, **k):
    p = real(*a, **k)
    started.append(p)
    return p
tc.subprocess.Popen = spawn
class C(tc.TunnelConnector):
    def command(self):
        return ["sleep", "100"]
    def _request(self, packet):
        raise KeyboardInterrupt
class H:
    name, url = "h", "local:h"
c = C("local:h", H)
c.schema = "local"
try:
    c.open()
except KeyboardInterrupt:
    pass
try:
    started[0].wait(5)
    ok = True
except subprocess.TimeoutExpired:
    ok = False
    started[0].kill()
finish(ok, "the process of an interrupted connection " + ("ends" if ok else "stays"))
'''
