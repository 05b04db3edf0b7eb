SPECIFICATION GSpec
CONSTANTS
  Labels = {"a", "b"}
  Depth = 2
  MaxLists = 2
  MaxItems = 2
  Reuse = "equal"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
