SPECIFICATION Spec
CONSTANTS
 Family = "stream"
 Wide = FALSE
INVARIANTS OnlyOnce StreamLaws CircuitLaws ConnectionLaws DescriptorLaws
