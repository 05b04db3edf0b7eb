SPECIFICATION Spec
CONSTANTS DC = {d1, d2}
 SK = {s1, s2}
 B = 5
 K = 1
INVARIANTS Cancels Residues
