SPECIFICATION Spec
CONSTANTS DC = {d1, d2}
 SK = {s1, s2}
 B = 2
 K = 3
INVARIANTS Cancels Residues
