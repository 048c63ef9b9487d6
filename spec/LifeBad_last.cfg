SPECIFICATION Spec
CONSTANTS Slots = 2
 Cfgs = 2
 Inputs = 1
 MaxLen = 6
 Remembers = "last"
 Emit = FALSE
INVARIANTS AsAlone Placed
CONSTRAINT Out
CHECK_DEADLOCK FALSE
