SPECIFICATION Spec
CONSTANTS
 Kind = "dc"
 Always = TRUE
 Delay = 3
 Defers = {0, 2}
 MaxT = 7
 MaxRounds = 3
 Waits = {1, 2}
 Depth = 0
 Gen = FALSE
 Chain = FALSE
INVARIANTS NoCreep RunsApart
PROPERTIES Delayed Unasked IdleAfterStop NotEarly Exact
VIEW view
CHECK_DEADLOCK FALSE
