SPECIFICATION Spec
CONSTANTS
  XMax = 120
  CMax = 3
INVARIANTS Partition PhiIdentity SumIdentity Legendre TrivialValue EasyValue
CHECK_DEADLOCK FALSE
