SPECIFICATION Spec
VIEW VView
CHECK_DEADLOCK FALSE
