SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OverridesWin OthersKeep MeansOfSources
