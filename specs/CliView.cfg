SPECIFICATION Spec
VIEW view
INVARIANTS Total Untouched Created Refusal Inputs0 Result AfterHolds
CHECK_DEADLOCK FALSE
