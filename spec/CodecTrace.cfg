CONSTANTS BB = 8
SPECIFICATION TSpec
INVARIANTS Bounds Report
CHECK_DEADLOCK FALSE
