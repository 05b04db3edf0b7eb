SPECIFICATION Spec
CONSTANTS
 Period = 2
 MaxT = 7
 MaxE = 3
 Ages = {0, 1, 3}
INVARIANTS Counts Forgets
