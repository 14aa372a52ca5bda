SPECIFICATION Spec
INVARIANTS Same Fresh Clean OneEach Frozen First Listed Export
CHECK_DEADLOCK FALSE
