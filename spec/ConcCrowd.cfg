SPECIFICATION Spec
CONSTANTS Threads = 64
 Quanta = 4
 Sharing = "private"
 MaxSlices = 256
 Emit = TRUE
INVARIANTS Undisturbed PrefixOfAlone
CONSTRAINT Out
CHECK_DEADLOCK FALSE
