SPECIFICATION GSpec
CONSTANTS
 Depth = 4
 Mode = "every"
 MaxPlanners = 1
 GenLens = {1,8}
 GenMdctLens = {8}
INVARIANTS SharedWithinPlanner NotSharedOtherwise
CHECK_DEADLOCK FALSE
