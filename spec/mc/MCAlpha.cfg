CONSTANTS
  N = 2
  Alphas = {1000, 1399, 2500, 8001}
  Times = {0, 10, 3500, 20001}
  Valley = FALSE
  Mutant = "none"
SPECIFICATION Spec
VIEW View
INVARIANTS Truth Valid Few Fewer Close
CHECK_DEADLOCK FALSE
PROPERTY Finishes
