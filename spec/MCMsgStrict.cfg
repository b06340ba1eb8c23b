CONSTANTS EnumVals = 2 BB = 4 MaxFields = 1 Part = "all" Rich = TRUE
SPECIFICATION MSpec
INVARIANTS StrictTrip StrictReads StrictRejects RoundTrip Absent NotAbsent OneLayout OneValue CutFails ErrorIsNone Sound
CHECK_DEADLOCK FALSE
