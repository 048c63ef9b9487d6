SPECIFICATION GSpec
CONSTANTS
 Depth = 120
 Mode = "walk"
 MaxPlanners = 2
 GenLens = {5,8,9,12,261,264,265,268,1029,4104,65541,65544,65545,65548}
 GenMdctLens = {8,12,16,264,268,272,1032,65544,65548,65552}
INVARIANTS SharedWithinPlanner NotSharedOtherwise
CHECK_DEADLOCK FALSE
