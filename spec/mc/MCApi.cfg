SPECIFICATION Spec
INVARIANT Documented
CHECK_DEADLOCK FALSE
CONSTANTS
 Top = 33
 Maxima = {7, 15, 33}
 MaxCount = 13
 MinSize = 4
 MaxSize = 16
 MaxThreads = 4
 Mutant = "none"
