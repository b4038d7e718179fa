ID, PROP = "c15-selection-of-spaces", "C15"
F = "src/fora/main.py"
EDITS = [(F, '''        # Skip duplicate entries
        if host in selected_hosts:
            continue
''', '''        # Skip duplicate entries
        if host in selected_hosts or not host:
            continue
''')]
NEEDS = "a selection with an empty name (a trailing comma, an unset shell variable)"
BREAKS = "an unknown host in the selection is not an error"
DEMO = '''
import fora.main, types
ran = []
fora.main.load_inventory = lambda i: setattr(fora, "inventory", types.SimpleNamespace(loaded_hosts={"a": types.SimpleNamespace(name="a"), "b": types.SimpleNamespace(name="b")}))
class C:
    def __init__(self, h): self.h = h
    def __enter__(self): ran.append(self.h.name)
    def __exit__(self, *a): pass
fora.main.open_connection = C
fora.main.run_script = lambda *a, **k: None
try:
    fora.main.main(["-H", "a,,b", "inv", "script"])
    code = 0
except SystemExit as e:
    code = e.code
finish(code not in (0, None) and not ran, f"exit {code}, hosts run: {ran}")
'''
