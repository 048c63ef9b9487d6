SPECIFICATION TSpec
CONSTANTS
 Cell <- CellHere
 Base <- BaseBytes
 Per <- PerLength
 SomeLens = {}
 Bytes = {}
 Longest = 0
VIEW Where
CHECK_DEADLOCK FALSE
