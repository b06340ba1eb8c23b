CONSTANT BB = 8
SPECIFICATION TSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
