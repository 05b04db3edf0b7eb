SPECIFICATION GSpec
CONSTANTS
  Kind = "dc"
  Steps = 6
  Policy = "whole"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
