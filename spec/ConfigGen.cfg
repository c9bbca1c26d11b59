SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DefaultsAcceptable BothKinds NoLeak Stable
