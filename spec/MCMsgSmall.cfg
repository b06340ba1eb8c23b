CONSTANTS EnumVals = 0 BB = 4 MaxFields = 1 Part = "all" Rich = TRUE
SPECIFICATION MSpec
INVARIANTS RoundTrip Absent NotAbsent OneLayout OneValue CutFails ErrorIsNone Sound
CHECK_DEADLOCK FALSE
