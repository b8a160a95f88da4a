CONSTANTS
  Words = {"7", "2^64-1", "-d300", "-d", "-c", "-c23", "--count=6", "-p2", "-q", "--time", "-n", "-t2", "--no-status", "-s", "--bogus"}
  Length = 4
  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Ends Sound Quiet AllCounts Distance
