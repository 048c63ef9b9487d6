SPECIFICATION GSpec
CONSTANTS
 Depth = 60
 Mode = "walk"
 MaxPlanners = 4
 GenLens = {1,2,3,4,5,6,7,8,9,10,11,12,14,15,16,18,20,21,24,28,30}
 GenMdctLens = {1,2,4,6,7,8,10,12,14,18,20}
INVARIANTS SharedWithinPlanner NotSharedOtherwise
CHECK_DEADLOCK FALSE
