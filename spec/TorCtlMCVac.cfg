SPECIFICATION Spec
CONSTANTS
  Cfgs <- CfgsAll
  Methods <- MethodsAll
  CookieKinds <- CookiesAll
  Wants <- WantsTwo
  Cover = FALSE
VIEW view
INVARIANT NeverOn
