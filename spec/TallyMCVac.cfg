SPECIFICATION Spec
CONSTANTS
 DCs = {"d1"}
 SKs = {"k1"}
 Period = 1
 Cont = 3
 MaxT = 6
 MaxRounds = 2
 MaxNet = 2
 Faults = 2
 Bind = TRUE
 Changes = FALSE
 Waits = {1}
CHECK_DEADLOCK FALSE
INVARIANT Vac2
VIEW view
