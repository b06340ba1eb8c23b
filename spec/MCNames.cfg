CONSTANTS Most = 5 Loose = FALSE
SPECIFICATION NSpec
INVARIANTS Usable Stable Snakes Scoped Packages Distinct
CHECK_DEADLOCK FALSE
