SPECIFICATION SpecB
CONSTANTS
 MaxV = 3
 NBins = 3
INVARIANTS OneBin Complete
CHECK_DEADLOCK FALSE
