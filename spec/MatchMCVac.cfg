SPECIFICATION Spec
CONSTANTS
  Labels = {"a", "b"}
  Depth = 2
  MaxLists = 2
  MaxItems = 2
  Reuse = "equal"
INVARIANT NeverPruned
CHECK_DEADLOCK FALSE
