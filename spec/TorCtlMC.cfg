SPECIFICATION Spec
CONSTANTS
  Cfgs <- CfgsAll
  Methods <- MethodsAll
  CookieKinds <- CookiesAll
  Wants <- WantsTwo
  Cover = FALSE
VIEW view
INVARIANT ProofForProof
INVARIANT NothingEarly
INVARIANT LeftOff
INVARIANT OnlyAsked
INVARIANT Permitted
PROPERTY Strongest
PROPERTY NoCountOutside
