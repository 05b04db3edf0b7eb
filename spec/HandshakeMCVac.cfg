SPECIFICATION Spec
CONSTANTS
  ServerConns = {"s1"}
  ClientConns = {"c1"}
  KeyOf <- AllK
  RecordHist = FALSE
INVARIANTS NotBoth
VIEW view
