SPECIFICATION PSpec
CONSTANTS PlannerIds = {1,2}
 Lens = {5,8}
 UsedOps = {"dct2","dct4"}
 MaxInsts = 3
 LettingGo = TRUE
INVARIANTS NothingForNobody Held NoCycle KeptBounded CtorRespected KeysAnswered
PROPERTIES MemoryRefined HandedOutNeverChanges
CHECK_DEADLOCK FALSE
