CONSTANTS
  Threads = 2
  Locks = 2
  Steps = 6
  Accesses = 1
  Mutant = "none"
SPECIFICATION Spec
INVARIANTS ClocksRight ScanRight
CHECK_DEADLOCK FALSE
