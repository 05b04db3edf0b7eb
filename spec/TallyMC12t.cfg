SPECIFICATION Spec
CONSTANTS
 DCs = {"d1"}
 SKs = {"k1", "k2"}
 Period = 1
 Cont = 2
 MaxT = 7
 MaxRounds = 2
 MaxNet = 1
 Faults = 1
 Bind = TRUE
 Changes = FALSE
 Waits = {1}
CHECK_DEADLOCK FALSE
INVARIANTS Complete Cancels Once StartedRight CountsRounds Enough
PROPERTIES StartsOnly Fixed Ordered EndsOnly BeginsOnly
VIEW view
