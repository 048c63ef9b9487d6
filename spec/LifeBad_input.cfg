SPECIFICATION Spec
CONSTANTS Slots = 2
 Cfgs = 2
 Inputs = 1
 MaxLen = 6
 Remembers = "input"
 Emit = FALSE
INVARIANTS AsAlone Placed
CONSTRAINT Out
CHECK_DEADLOCK FALSE
