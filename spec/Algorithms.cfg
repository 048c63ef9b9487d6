SPECIFICATION Spec
CONSTANTS
 MaxN = 8
 Thirst = {1,2,5}
INVARIANTS Correct Surplus
CHECK_DEADLOCK FALSE
