SPECIFICATION Spec
INVARIANTS NoTrace Kept Export
CHECK_DEADLOCK FALSE
VIEW view
