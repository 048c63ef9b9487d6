SPECIFICATION GSpec
CONSTANTS
 Depth = 202
 Mode = "sweep"
 MaxPlanners = 1
 GenLens = {1}
 GenMdctLens = {2}
INVARIANTS SharedWithinPlanner NotSharedOtherwise
CHECK_DEADLOCK FALSE
