SPECIFICATION RSpec
CONSTANTS
  Threads = {1, 2, 3}
  Objects = {1, 2}
  Mech <- Emul2
  Menu <- MenuDef
  Spins = 10
  Faults = 0
  Deadline = 1
INVARIANTS Exclusive AtRest Out
CHECK_DEADLOCK FALSE
