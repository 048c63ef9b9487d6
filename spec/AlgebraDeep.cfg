SPECIFICATION Spec
CONSTANTS
 MaxN = 12
INVARIANT Holds
CHECK_DEADLOCK FALSE
