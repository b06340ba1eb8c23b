CONSTANTS
  BB = 4
  MaxItems = 1
  MaxJunk = 2
  JunkBytes = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
  Scope = "wide"
SPECIFICATION MSpec
INVARIANTS RoundTrip TruncationSafe SelfDescribing Progress InBounds InRange
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
