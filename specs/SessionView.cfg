SPECIFICATION Spec
VIEW view
INVARIANTS NoInfluence CanAlone Frozen NoTrace
CHECK_DEADLOCK FALSE
