CONSTANTS
  Words = {"17", "1e3", "-l", "--P2", "--lmo5", "-d", "-s", "-s2", "--time", "-t2", "--alpha=1.5", "-h", "--bogus", "--lmo7"}
  Length = 4
  Mutant = "none"
SPECIFICATION Spec
INVARIANTS TypeOK Ends OneNumber LastAlgorithm StatusTimes Commute
