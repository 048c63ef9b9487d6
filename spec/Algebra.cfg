SPECIFICATION Spec
CONSTANTS
 MaxN = 8
INVARIANT Holds
CHECK_DEADLOCK FALSE
