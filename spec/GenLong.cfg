SPECIFICATION GSpec
CONSTANTS
 Depth = 200
 Mode = "walk"
 MaxPlanners = 3
 GenLens = {1,2,3,4,5,8,9,12,16,24,25,31,32,44,45,48,64,97,100,128,255,256,320,512,700}
 GenMdctLens = {1,2,4,6,8,16,36,50,100,128,256,500}
INVARIANTS SharedWithinPlanner NotSharedOtherwise
CHECK_DEADLOCK FALSE
