SPECIFICATION Spec
CONSTANTS Slots = 3
 Cfgs = 4
 Inputs = 3
 MaxLen = 24
 Remembers = "nothing"
 Emit = TRUE
INVARIANTS AsAlone Placed
CONSTRAINT Out
CHECK_DEADLOCK FALSE
