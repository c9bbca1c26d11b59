SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS GridCovers CurvesRight
