SPECIFICATION ImplSpec
CONSTANTS PlannerIds = {1,2}
 Lens = {1,4,8}
 UsedOps = {"dct1","dct2","dst3","dct4","dst7"}
 MaxInsts = 3
 LettingGo = FALSE
INVARIANTS SharedWithinPlanner NotSharedOtherwise CtorRespected ScratchSuffices KeysAnswered CostBounded KeptBounded NoCycle NothingShared OneKeyPerObject
PROPERTIES Refines HandedOutNeverChanges
CHECK_DEADLOCK FALSE
