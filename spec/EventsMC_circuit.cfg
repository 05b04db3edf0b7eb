SPECIFICATION Spec
CONSTANTS
 Family = "circuit"
 Wide = FALSE
INVARIANTS OnlyOnce StreamLaws CircuitLaws ConnectionLaws DescriptorLaws
