SPECIFICATION Spec
CONSTANTS
  MaxConns = 2
  Cfgs <- CfgsAll
  Cover = TRUE
VIEW cover
