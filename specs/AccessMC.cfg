SPECIFICATION Spec
INVARIANTS Truth NoReread Local GcCounts Forest Lazy Export
CHECK_DEADLOCK FALSE
