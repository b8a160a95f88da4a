SPECIFICATION Spec
INVARIANT Once
INVARIANT Whole
CONSTANTS
 Starts = {0, 1, 2, 3, 5, 7, 17, 28, 29, 30, 31, 32, 33}
 MaxDist = 100
 MinDist = 31
 NThreads = 2
 Mutant = "none"
