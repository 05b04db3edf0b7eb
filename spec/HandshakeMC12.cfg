SPECIFICATION Spec
CONSTANTS
  ServerConns = {"s1"}
  ClientConns = {"c1","c2"}
  KeyOf <- AllK
  RecordHist = FALSE
INVARIANTS ServerAgreement ClientAgreement Injective
PROPERTIES OthersUntouched
VIEW view
