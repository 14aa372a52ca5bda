SPECIFICATION Spec
INVARIANTS Unique Frozen Grows Sticky Closed Export
CHECK_DEADLOCK FALSE
