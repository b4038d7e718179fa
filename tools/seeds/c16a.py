ID, PROP = "c16-options-shared", "C16"
F = "src/fora/connectors/ssh.py"
EDITS = [(F, '''        command = ["ssh"]
        command.extend(self.ssh_opts)
''', '''        command = self.ssh_opts
        command.insert(0, "ssh")
''')]
NEEDS = "a second connection to a host that declares ssh options"
BREAKS = "the options of the host are modified, so the second connection runs a different command"
DEMO = '''
from fora.connectors.ssh import SshConnector
fora.args = A()
class H:
    name, url, ssh_opts = "h", "ssh://h", ["-p", "22"]
first = SshConnector("ssh://h", H).command()
first = list(first)
second = list(SshConnector("ssh://h", H).command())
finish(first == second and H.ssh_opts == ["-p", "22"], f"second connection starts with {second[:6]!r}")
'''
