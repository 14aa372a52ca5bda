SPECIFICATION Spec
INVARIANTS Isolation Private Closing
VIEW view
CHECK_DEADLOCK FALSE
