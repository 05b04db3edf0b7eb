SPECIFICATION GSpec
CONSTANTS
 DCs = {"dc1", "dc2"}
 SKs = {"sk1", "sk2"}
 Period = 3
 Cont <- Forever
 MaxT = 1000
 MaxRounds = 100
 MaxNet = 3
 Faults = 2
 Bind = TRUE
 Changes = FALSE
 Waits = {1}
 MaxEvents = 3
 M = 11
 Depth = 90
CONSTRAINT GenStop
INVARIANT GenPrint
CHECK_DEADLOCK FALSE
