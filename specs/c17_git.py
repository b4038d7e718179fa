"""C17: repositories reach the requested commit, then stay unchanged."""
from specs import opcheck, ops_git
opcheck.all_of("C17", opcheck.converge, ops_git.SCENARIOS)
