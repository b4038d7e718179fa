ID, PROP = "c14-snapshot-shared", "C14"
F = "src/fora/inventory_wrapper.py"
EDITS = [(F, "append(VariableActionSnapshot(cur_action, actor, copy(value)))", "append(VariableActionSnapshot(cur_action, actor, value))")]
NEEDS = "a group modifying a variable in place, and an independent group replacing it afterwards"
BREAKS = "the modification goes unnoticed, so load order silently decides the value"
DEMO = '''
os.makedirs(TMP + "/groups")
open(TMP + "/inventory.py", "w").write("""
from fora.inventory_wrapper import *
groups = [GroupDeclaration("a"), GroupDeclaration("b"), GroupDeclaration("base", before=["a", "b"])]
hosts = [HostDeclaration(url="local:h", groups=["a", "b", "base"])]
""")
open(TMP + "/groups/base.py", "w").write("x = ['base']\\n")
for g in "ab":
    open(TMP + f"/groups/{g}.py", "w").write("""
import fora
if not hasattr(fora, 'demo_first'):
    fora.demo_first = True
    x.append('more')
else:
    x = ['replaced']
""")
fora.args = A()
try:
    fora.loader.load_inventory(TMP + "/inventory.py")
    ok = False
except Exception as e:
    ok = True
finish(ok, "replacing what an independent group has added is " + ("refused" if ok else "accepted"))
'''
