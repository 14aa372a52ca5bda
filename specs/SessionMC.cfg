SPECIFICATION Spec
INVARIANTS NoInfluence CanAlone Frozen NoTrace Export
CHECK_DEADLOCK FALSE
