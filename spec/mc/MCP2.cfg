SPECIFICATION Spec
CONSTANTS
  XMax = 90
  MaxThreads = 3
  MinDist = 3
  Mutant = "none"
INVARIANTS TypeOK Tiles Exact Prefix
PROPERTY Terminates
CHECK_DEADLOCK TRUE
