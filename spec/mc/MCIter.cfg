SPECIFICATION Spec
INVARIANT Cursor
CHECK_DEADLOCK FALSE
CONSTANTS
 Top = 30
 Fill = 2
 Dists = {2, 5, 11}
 Gap = 6
 Mutant = "none"
