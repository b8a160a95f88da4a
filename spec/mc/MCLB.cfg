SPECIFICATION Spec
CONSTANTS
  ZMax = 60
  MaxThreads = 4
  Unit = 2
  Mutant = "none"
INVARIANTS Legal NotBelowMin
PROPERTY Terminates
CHECK_DEADLOCK TRUE
