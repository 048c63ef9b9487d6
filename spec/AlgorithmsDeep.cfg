SPECIFICATION Spec
CONSTANTS
 MaxN = 16
 Thirst = {1,2,3,4,5}
INVARIANTS Correct Surplus
CHECK_DEADLOCK FALSE
