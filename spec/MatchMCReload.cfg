SPECIFICATION RSpec
CONSTANTS
  Labels = {"a", "b"}
  Depth = 1
  MaxLists = 2
  MaxItems = 2
  Reuse = "equal"
INVARIANT InForce
CHECK_DEADLOCK FALSE
