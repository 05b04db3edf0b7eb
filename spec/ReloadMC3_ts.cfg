SPECIFICATION Spec
CONSTANTS
  Kind = "ts"
  Steps = 14
  Policy = "whole"
INVARIANT Whole
INVARIANT Taken
INVARIANT RoundKept
PROPERTY Kept
VIEW View
CHECK_DEADLOCK FALSE
