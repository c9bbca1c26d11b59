SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once FreeAmong Whole Closed NoConstantTwice Choices
