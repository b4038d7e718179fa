ID, PROP = "c01-empty-optional", "C01"
F = "src/fora/connectors/tunnel_dispatcher.py"
EDITS = [(F, "        real_type = typing.get_args(vtype)[0]\n        _serializers[bool](conn, v is not None)\n", "        real_type = typing.get_args(vtype)[0]\n        if real_type is str:\n            v = v or None\n        _serializers[bool](conn, v is not None)\n")]
NEEDS = "an optional text field whose value is empty but present (e.g. an environment variable that is set to nothing)"
BREAKS = "an empty optional text arrives as absent"
DEMO = '''
os.environ["DEMO_EMPTY"] = ""
c = connect()
v = c.getenv("DEMO_EMPTY")
finish(v == "", f"a variable set to the empty text arrives as {v!r}")
'''
