SPECIFICATION CallsSpec
CHECK_DEADLOCK FALSE
