SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Composes SomeOfBoth
