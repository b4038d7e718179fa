from specs import opcheck, ops_files, ops_line, ops_git, ops_system

opcheck.all_of("C07", opcheck.truthful, ops_files.SCENARIOS + ops_line.SCENARIOS + ops_system.SCENARIOS + ops_git.SCENARIOS)
