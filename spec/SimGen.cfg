SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NothingWithout PathsRight
