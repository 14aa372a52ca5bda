SPECIFICATION Spec
INVARIANTS Isolation Private Closing Export
CHECK_DEADLOCK FALSE
