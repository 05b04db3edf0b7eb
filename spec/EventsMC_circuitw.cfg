SPECIFICATION Spec
CONSTANTS
 Family = "circuit"
 Wide = TRUE
INVARIANTS OnlyOnce StreamLaws CircuitLaws ConnectionLaws DescriptorLaws
