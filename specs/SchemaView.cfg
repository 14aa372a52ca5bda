SPECIFICATION Spec
VIEW view
INVARIANTS Unique Frozen Grows Sticky Closed
CHECK_DEADLOCK FALSE
