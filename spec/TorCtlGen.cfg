SPECIFICATION Spec
CONSTANTS
  Cfgs <- CfgsFew
  Methods <- MethodsAll
  CookieKinds <- CookiesAll
  Wants <- WantsTwo
  Cover = TRUE
VIEW cover
