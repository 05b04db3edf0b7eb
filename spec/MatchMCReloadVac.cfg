SPECIFICATION RSpec
CONSTANTS
  Labels = {"a", "b"}
  Depth = 1
  MaxLists = 2
  MaxItems = 2
  Reuse = "contained"
INVARIANT InForce
CHECK_DEADLOCK FALSE
