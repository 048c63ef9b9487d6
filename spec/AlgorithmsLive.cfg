SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 Thirst = {1,5}
INVARIANTS Correct Surplus
PROPERTY Terminates
CHECK_DEADLOCK FALSE
