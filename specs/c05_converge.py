"""C05: an operation that reports success has left the machine in exactly the state that was asked for."""
from specs import opcheck, ops_files, ops_line

opcheck.all_of("C05", opcheck.converge, ops_files.SCENARIOS + ops_line.SCENARIOS)
