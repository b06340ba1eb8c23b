CONSTANTS EnumVals = 0 BB = 8 MaxFields = 1 Part = "exact" Rich = TRUE
SPECIFICATION GSpec
INVARIANTS Vector
CHECK_DEADLOCK FALSE
