SPECIFICATION Spec
CONSTANTS
 Family = "connection"
 Wide = FALSE
INVARIANTS OnlyOnce StreamLaws CircuitLaws ConnectionLaws DescriptorLaws
