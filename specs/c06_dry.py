from specs import cmdline, opcheck, ops_files, ops_line, ops_git, ops_system

opcheck.all_of("C06", opcheck.dry, ops_files.SCENARIOS + ops_line.SCENARIOS + ops_system.SCENARIOS + ops_git.SCENARIOS)
cmdline.declare("C06")
