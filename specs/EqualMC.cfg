SPECIFICATION Spec
INVARIANTS Equivalence Distinct Edited Unedited Foreign Export
CHECK_DEADLOCK FALSE
