SPECIFICATION Spec
INVARIANTS Right NoStuck
PROPERTY AllDone
CHECK_DEADLOCK FALSE
