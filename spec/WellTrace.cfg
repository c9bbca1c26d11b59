SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANTS Once Whole Closed Choices
