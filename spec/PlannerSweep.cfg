SPECIFICATION SweepSpec
CONSTANTS PlannerIds = {1}
 Lens <- SweepLens
 UsedOps = {}
 MaxInsts = 0
 LettingGo = FALSE
INVARIANTS CtorRespected ScratchSuffices KeysAnswered CostBounded KeptBounded NoCycle OneKeyPerObject
CHECK_DEADLOCK FALSE
