SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS StatusOfLatest SilentOnlyIfOk Possible
PROPERTY Stays
