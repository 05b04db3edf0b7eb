SPECIFICATION Spec
CONSTANTS
  Kind = "dc"
  Steps = 5
  Policy = "round"
INVARIANT RoundKept
VIEW View
CHECK_DEADLOCK FALSE
