SPECIFICATION Spec
INVARIANT Exact
INVARIANT Division
INVARIANT Finishes
CHECK_DEADLOCK FALSE
CONSTANT W = 2
CONSTANT Mutant = "none"
