SPECIFICATION Spec
CONSTANTS
 Kind = "sk"
 Always = FALSE
 Delay = 3
 Defers = {0}
 MaxT = 8
 MaxRounds = 2
 Waits = {1, 2}
 Depth = 0
 Gen = FALSE
 Chain = FALSE
INVARIANTS NoCreep RunsApart
PROPERTIES Delayed Unasked IdleAfterStop NotEarly Exact
VIEW view
CHECK_DEADLOCK FALSE
