CONSTANT BB = 8
SPECIFICATION TSpec
INVARIANT Where
CHECK_DEADLOCK FALSE
