SPECIFICATION Spec
CONSTANTS Slots = 2
 Cfgs = 3
 Inputs = 2
 MaxLen = 8
 Remembers = "nothing"
 Emit = TRUE
INVARIANTS AsAlone Placed
CONSTRAINT Out
CHECK_DEADLOCK FALSE
