SPECIFICATION SpecB
CONSTANTS
 MaxV = 2
 NBins = 2
INVARIANTS OneBin Complete
CHECK_DEADLOCK FALSE
