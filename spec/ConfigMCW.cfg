SPECIFICATION SpecW
CONSTANTS
 MaxV = 1
 NBins = 1
INVARIANTS WeightsFit
CHECK_DEADLOCK FALSE
