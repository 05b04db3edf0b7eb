SPECIFICATION Spec
CONSTANTS
  MaxConns = 2
  Cfgs <- CfgsAll
  Cover = FALSE
VIEW view
INVARIANT NeverAll
