CONSTANTS BB = 8
SPECIFICATION TSpec
INVARIANTS Bounds Where
CHECK_DEADLOCK FALSE
