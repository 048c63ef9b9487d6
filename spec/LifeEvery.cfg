SPECIFICATION Spec
CONSTANTS Slots = 2
 Cfgs = 2
 Inputs = 1
 MaxLen = 7
 Remembers = "nothing"
 Emit = TRUE
INVARIANTS AsAlone Placed
CONSTRAINT Out
CHECK_DEADLOCK FALSE
