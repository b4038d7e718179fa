from specs import opcheck, ops_system
opcheck.all_of("C09", opcheck.converge, ops_system.SCENARIOS)
