SPECIFICATION Spec
CONSTANTS
 Kind = "dc"
 Always = TRUE
 Delay = 10
 Defers = {0, 3}
 MaxT = 100000
 MaxRounds = 1000
 Waits = {1, 2, 3, 8, 10, 11}
 Depth = 24
 Gen = TRUE
 Chain = FALSE
CONSTRAINT GenStop
INVARIANT GenPrint
CHECK_DEADLOCK FALSE
