CONSTANTS
  BB = 4
  MaxItems = 0
  MaxJunk = 4
  JunkBytes = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
  Scope = "narrow"
SPECIFICATION MSpec
INVARIANTS RoundTrip TruncationSafe SelfDescribing Progress InBounds InRange
CHECK_DEADLOCK FALSE
