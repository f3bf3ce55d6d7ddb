SPECIFICATION Spec
VIEW FView
CHECK_DEADLOCK FALSE
