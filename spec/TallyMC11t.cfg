SPECIFICATION Spec
CONSTANTS
 DCs = {"d1"}
 SKs = {"k1"}
 Period = 1
 Cont <- Forever
 MaxT = 7
 MaxRounds = 2
 MaxNet = 2
 Faults = 2
 Bind = TRUE
 Changes = TRUE
 Waits = {1}
CHECK_DEADLOCK FALSE
INVARIANTS Complete Cancels Once StartedRight CountsRounds Enough
PROPERTIES StartsOnly Fixed Ordered EndsOnly BeginsOnly
VIEW view
