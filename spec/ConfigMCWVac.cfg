SPECIFICATION SpecW
CONSTANTS
 MaxV = 1
 NBins = 1
INVARIANTS WeightsVac
CHECK_DEADLOCK FALSE
