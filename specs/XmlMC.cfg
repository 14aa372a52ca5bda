SPECIFICATION Spec
INVARIANTS Written RoundTrip Export
CHECK_DEADLOCK FALSE
