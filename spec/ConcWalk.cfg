SPECIFICATION Spec
CONSTANTS Threads = 3
 Quanta = 10
 Sharing = "private"
 MaxSlices = 30
 Emit = TRUE
INVARIANTS Undisturbed PrefixOfAlone
CONSTRAINT Out
CHECK_DEADLOCK FALSE
