SPECIFICATION Spec
CONSTANTS Vars = {a, b, c, d}
 Dom = {0, 1}
 None = None
CHECK_DEADLOCK FALSE
INVARIANTS SameFeasible Rejected Restored
