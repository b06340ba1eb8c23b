CONSTANTS BB = 8
SPECIFICATION TSpec
INVARIANTS Where
CHECK_DEADLOCK FALSE
