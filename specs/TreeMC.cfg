SPECIFICATION Spec
INVARIANTS RoundTrip UnknownEquiv Anywhere Prefix StripOne Explained Export
CHECK_DEADLOCK FALSE
