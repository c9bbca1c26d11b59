SPECIFICATION Spec
INVARIANTS
    Solved
    Balanced
    GdpIdentity
    WarmingProportional
    EmissionsAddUp
    NoDamageAtStart
    SeaLevelRises
    TradeConserves
    CostPoolConserves
    SharesAddUp
    LearningNeverRaisesCosts
CHECK_DEADLOCK FALSE
