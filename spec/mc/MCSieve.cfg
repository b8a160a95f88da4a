SPECIFICATION Spec
INVARIANT VisitedOk
INVARIANT MembersOk
INVARIANT PrefixOk
INVARIANT BackwardOk
CHECK_DEADLOCK FALSE
CONSTANT Mod = 30
CONSTANT WP = {2, 3, 5}
CONSTANT Sieving <- Sieving0
CONSTANT Size = 16
CONSTANT Segments = 8
CONSTANT Start <- Start0
CONSTANT Mutant = "none"
