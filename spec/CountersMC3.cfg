SPECIFICATION Spec
CONSTANTS DC = {d1, d2, d3}
 SK = {s1}
 B = 8
 K = 1
INVARIANTS Cancels Residues
