SPECIFICATION RSpec
CONSTANTS
 DCs = {"d1", "d2"}
 SKs = {"k1"}
 Period = 1
 Cont = 2
 MaxT = 4
 MaxRounds = 2
 MaxNet = 1
 Faults = 1
 Bind = TRUE
 Changes = FALSE
 Waits = {1}
 MaxEvents = 1
 M = 11
CHECK_DEADLOCK FALSE
PROPERTIES Sums
VIEW rview
