SPECIFICATION TSpec
VIEW Where
CHECK_DEADLOCK FALSE
