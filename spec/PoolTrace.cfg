CONSTANTS BB = 8
SPECIFICATION TSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
