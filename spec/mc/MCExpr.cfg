SPECIFICATION Spec
INVARIANT Correct
INVARIANT Progress
CHECK_DEADLOCK FALSE
CONSTANT Alphabet = {"2", "7", "-", "**", "*", "(", ")", "|", "e"}
CONSTANT MaxLen = 5
CONSTANT Width = "16"
CONSTANT Mutant = "none"
