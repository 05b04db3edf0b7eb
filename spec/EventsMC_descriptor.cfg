SPECIFICATION Spec
CONSTANTS
 Family = "descriptor"
 Wide = FALSE
INVARIANTS OnlyOnce StreamLaws CircuitLaws ConnectionLaws DescriptorLaws
