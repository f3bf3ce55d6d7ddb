SPECIFICATION Spec
INVARIANT Inv
PROPERTY StepProps
VIEW VView
CHECK_DEADLOCK FALSE
