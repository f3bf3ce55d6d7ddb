SPECIFICATION Spec
VIEW View
INVARIANT Refines
INVARIANT Layout
CHECK_DEADLOCK FALSE
