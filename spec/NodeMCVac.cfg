SPECIFICATION Spec
CONSTANTS
 Kind = "sk"
 Always = FALSE
 Delay = 3
 Defers = {0, 2}
 MaxT = 9
 MaxRounds = 3
 Waits = {1, 2}
 Depth = 0
 Gen = FALSE
 Chain = FALSE
INVARIANTS Vac
VIEW view
CHECK_DEADLOCK FALSE
