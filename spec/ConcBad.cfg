SPECIFICATION Spec
CONSTANTS Threads = 2
 Quanta = 8
 Sharing = "instance"
 MaxSlices = 4
 Emit = FALSE
INVARIANTS Undisturbed

CHECK_DEADLOCK FALSE
