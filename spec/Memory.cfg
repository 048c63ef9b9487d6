SPECIFICATION MemSpec
CONSTANTS
 Cell = 1
 Base <- BaseBytes
 Per <- PerLength
 SomeLens = {1}
 Bytes <- SomeBytes
 Longest = 3
INVARIANTS Held NothingForNobody NoAccumulation SharedWithinPlanner NotSharedOtherwise
PROPERTIES HandedOutNeverChanges
CHECK_DEADLOCK FALSE
