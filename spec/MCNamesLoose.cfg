CONSTANTS Most = 4 Loose = TRUE
SPECIFICATION NSpec
INVARIANTS Distinct
CHECK_DEADLOCK FALSE
