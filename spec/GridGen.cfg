SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
INVARIANT Covers
