SPECIFICATION Spec
INVARIANT Right
CONSTANTS
 Top = 60
 MaxN = 9
 Dists = {0, 1, 4, 9, 30}
 Tinys = {0, 2, 4}
 Mutant = "none"
