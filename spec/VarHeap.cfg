SPECIFICATION Spec
CONSTANTS
  Depth = 6
  NS = 3
  NB = 3
  MaxLen = 2
  Vals = {1}
INVARIANTS Inv Refines Owned
PROPERTY StepProps
VIEW ViewNoCmd
CHECK_DEADLOCK FALSE
CONSTRAINT Shallow
