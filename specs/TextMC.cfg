SPECIFICATION Spec
INVARIANTS Lossless Wrapped Obeys Export
CHECK_DEADLOCK FALSE
