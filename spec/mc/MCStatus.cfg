CONSTANTS
  Threads = 2
  Max = 3
  Reports = 2
  Gap = 2
  Step = 1
  Clock = 4
  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Monotone Bounded Exclusive Owner
