SPECIFICATION Spec
CONSTANTS Threads = 2
 Quanta = 8
 Sharing = "private"
 MaxSlices = 4
 Emit = TRUE
INVARIANTS Undisturbed PrefixOfAlone
CONSTRAINT Out
CHECK_DEADLOCK FALSE
