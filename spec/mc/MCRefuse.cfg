CONSTANTS
  W = 11
  N = 7
  K = 6
  Top = 2500
  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Right Needed Small Fits
