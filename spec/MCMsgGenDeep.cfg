CONSTANTS EnumVals = 0 BB = 8 MaxFields = 2 Part = "exact" Rich = FALSE
SPECIFICATION GSpec
INVARIANTS Vector
CHECK_DEADLOCK FALSE
