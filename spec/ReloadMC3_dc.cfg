SPECIFICATION Spec
CONSTANTS
  Kind = "dc"
  Steps = 14
  Policy = "whole"
INVARIANT Whole
INVARIANT Taken
INVARIANT RoundKept
PROPERTY Kept
VIEW View
CHECK_DEADLOCK FALSE
