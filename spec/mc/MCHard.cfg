SPECIFICATION Spec
CONSTANTS
  XMin = 8
  XMax = 60
  MaxThreads = 3
  MinSeg = 2
  CS = {0, 1, 2}
  Mutant = "none"
INVARIANTS Exact Tiles
PROPERTY Terminates
CHECK_DEADLOCK TRUE
