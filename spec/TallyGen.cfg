SPECIFICATION GSpec
CONSTANTS
 DCs = {"d1", "d2"}
 SKs = {"k1", "k2"}
 Period = 2
 Cont <- Forever
 MaxT = 1000
 MaxRounds = 100
 MaxNet = 3
 Faults = 3
 Bind = TRUE
 Changes = TRUE
 Waits = {1}
 Depth = 60
CONSTRAINT GenStop
INVARIANT GenPrint
CHECK_DEADLOCK FALSE
