SPECIFICATION Spec
INVARIANT Serial
INVARIANT Isolated
CHECK_DEADLOCK FALSE
