ID, PROP = "c13-few-dependencies-first", "C13"
F = "src/fora/inventory_wrapper.py"
EDITS = [(F, "group_names.sort(key=lambda g: self._group_ranks_min[g])", "group_names.sort(key=lambda g: (len(self._group_decls[g].after), self._group_ranks_min[g]))")]
NEEDS = "a group with fewer dependencies than the group it depends on"
BREAKS = "a group is loaded before a group it depends on"
DEMO = '''
os.makedirs(TMP + "/groups")
open(TMP + "/inventory.py", "w").write("""
from fora.inventory_wrapper import *
groups = ["x", "y", GroupDeclaration("b", after=["x", "y"]), GroupDeclaration("c", after=["b"])]
hosts = [HostDeclaration(url="local:h", groups=["x", "y", "b", "c"])]
""")
fora.demo_order = []
for g in "xybc":
    open(TMP + f"/groups/{g}.py", "w").write("import fora\\nfora.demo_order.append(fora.group.name)\\n")
fora.args = A()
fora.loader.load_inventory(TMP + "/inventory.py")
o = fora.demo_order
finish(sorted(o) == list("bcxy") and o.index("b") < o.index("c") and max(o.index("x"), o.index("y")) < o.index("b"), f"groups were loaded in the order {o}")
'''
