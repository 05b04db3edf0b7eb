SPECIFICATION Spec
CONSTANTS
  MaxConns = 3
  Cfgs <- CfgsAll
  Cover = FALSE
VIEW view
INVARIANT NoProofNoAuth
INVARIANT NothingBefore
INVARIANT InOrder
PROPERTY Recipient
