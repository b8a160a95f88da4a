SPECIFICATION Spec
INVARIANT Correct
INVARIANT Apart
CHECK_DEADLOCK FALSE
CONSTANT WP = {2, 3}
CONSTANT TMax = 15
CONSTANT YMin = 8
CONSTANT YMax = 195
CONSTANT MaxThreads = 4
CONSTANT Mutant = "none"
