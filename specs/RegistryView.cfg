SPECIFICATION Spec
VIEW view
INVARIANTS Same Fresh Clean OneEach Frozen First Listed
CHECK_DEADLOCK FALSE
