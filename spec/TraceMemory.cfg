SPECIFICATION TSpec
CONSTANTS
 Cell <- CellHere
 Base <- BaseBytes
 Per <- PerLength
 SomeLens = {}
 Bytes = {}
 Longest = 0
CHECK_DEADLOCK FALSE
