CONSTANTS
  Lines = 4
  Crashes = 2
  Fails = 2
  Mutant = "none"
SPECIFICATION Spec
VIEW View
INVARIANTS NothingLost LeftInOrder RunsInOrder FirstFirst Once AllDone Repeats
CHECK_DEADLOCK FALSE
PROPERTY Finishes
