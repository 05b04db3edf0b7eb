SPECIFICATION Spec
CONSTANTS
  Labels = {"a", "b"}
  Depth = 2
  MaxLists = 2
  MaxItems = 2
  Reuse = "equal"
INVARIANTS Antichain TreeRight Disjoint ExactRight Refuses RefusesExact OneClass ExactIsSuffix
CHECK_DEADLOCK FALSE
