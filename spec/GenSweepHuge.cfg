SPECIFICATION GSpec
CONSTANTS
 Depth = 2306
 Mode = "sweep"
 MaxPlanners = 1
 GenLens = {1}
 GenMdctLens = {2}
CHECK_DEADLOCK FALSE
