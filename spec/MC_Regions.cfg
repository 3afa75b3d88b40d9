\* MC_Regions
SPECIFICATION Spec
CONSTANTS
    Vertices = 1
    MaxSteps = 2
    RegionSize = 1
    FlagSets = {{}, {"nofloat"}, {"nofloat", "mustfloat"}}
INVARIANTS
    NothingFloatsThatMustNot NotAnchoredInVain NeverLost LineNeverEndsData NeverStraightToAccept
    NothingIsUnwired StartsFloat FreshOnce Idempotent
CHECK_DEADLOCK FALSE
