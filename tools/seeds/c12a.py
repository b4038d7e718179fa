ID, PROP = "c12-current-script", "C12"
F = "src/fora/loader.py"
EDITS = [(F, '''                os.chdir(previous_working_directory)
                fora.script = previous_script
''', '''                os.chdir(previous_working_directory)
            fora.script = previous_script
''')]
NEEDS = "a script that fails, called by a script that handles the exception"
BREAKS = "the caller continues with the failed script as current script, and its settings"
DEMO = '''
import inspect
from fora.loader import run_script
c = connect()
p = TMP + "/s.py"
open(p, "w").write("raise KeyError('x')\\n")
before = fora.script
try:
    run_script(p, inspect.getouterframes(inspect.currentframe())[0])
except KeyError:
    pass
finish(fora.script is before, "current script after a failed script")
'''
