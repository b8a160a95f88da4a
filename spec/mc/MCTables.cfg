SPECIFICATION Spec
INVARIANTS MuOk LpfOk PiOk BitmapOk SumsOk
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 130
CONSTANT Word = 8
CONSTANT Mutant = "none"
