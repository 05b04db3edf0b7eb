SPECIFICATION Spec
CONSTANTS
  Kind = "dc"
  Steps = 5
  Policy = "keys"
INVARIANT Whole
VIEW View
CHECK_DEADLOCK FALSE
