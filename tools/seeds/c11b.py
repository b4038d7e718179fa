ID, PROP = "c11-cleared-value", "C11"
F = "src/fora/operations/api.py"
EDITS = [(F, "                changed=not self.unchanged(),\n", "                changed=not self.unchanged(ignore_none=self.name is not None),\n")]
NEEDS = "a named operation whose only difference is a state that is cleared (its final value is None)"
BREAKS = "a change is reported as no change"
DEMO = '''
c = connect()
from fora.operations.api import operation, Operation
@operation("clear")
def clear(name=None, check=True, op=Operation.internal_use_only):
    op.desc("x")
    op.initial_state(a=1, b=2)
    op.final_state(a=None, b=2)
    return op.success()
r, q = clear(name="Clear"), clear()
finish(r.success and r.changed and q.changed, f"named: changed={r.changed}, unnamed: changed={q.changed}")
'''
