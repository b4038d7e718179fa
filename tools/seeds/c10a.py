ID, PROP = "c10-refused-block", "C10"
F = "src/fora/types.py"
EDITS = [(F, '''        self.new_defaults = fora.host.connection.resolve_defaults(self.new_defaults)
        self.obj._defaults_stack.append(self.new_defaults)
''', '''        self.obj._defaults_stack.append(self.new_defaults)
        self.new_defaults = fora.host.connection.resolve_defaults(self.new_defaults)
        self.obj._defaults_stack[-1] = self.new_defaults
''')]
NEEDS = "a settings block that is refused, and a script that goes on after that"
BREAKS = "the settings of the refused block stay in force"
DEMO = '''
c = connect()
with fora.script.defaults():
    before = fora.script.current_defaults().cwd
    try:
        with fora.script.defaults(cwd=TMP + "/missing"):
            pass
    except ValueError:
        pass
    after = fora.script.current_defaults().cwd
finish(before == after, f"cwd {before!r} became {after!r}")
'''
