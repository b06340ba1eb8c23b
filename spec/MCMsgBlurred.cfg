CONSTANTS EnumVals = 0 BB = 4 MaxFields = 2 Part = "exact" Rich = TRUE
SPECIFICATION MSpec
INVARIANTS RoundTripAll
CHECK_DEADLOCK FALSE
