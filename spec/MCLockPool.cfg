SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Objects = {1, 2}
  Mech <- Emul2
  Menu <- MenuDef
  Spins = 1
  Faults = 0
  Deadline = 1
INVARIANTS Exclusive HolderOK AtRest ListOK Reclaimed Bounded
PROPERTY Refines
CHECK_DEADLOCK FALSE
