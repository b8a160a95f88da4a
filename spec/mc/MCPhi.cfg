SPECIFICATION Spec
CONSTANTS
  XMin = 100
  XMax = 400
  AMax = 8
  TinyA = 1
  MaxA = 6
  CacheMax = 60
  MaxThreads = 2
  Mutant = "none"
INVARIANTS CacheSound Exact
CHECK_DEADLOCK TRUE
