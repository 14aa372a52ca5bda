SPECIFICATION Spec
INVARIANTS Untouched Created Refusal Inputs0 Result AfterHolds Export
CHECK_DEADLOCK FALSE
