CONSTANTS
  BB = 4
  MaxItems = 2
  MaxJunk = 0
  JunkBytes = {0}
  Scope = "narrow"
SPECIFICATION MSpec
INVARIANTS RoundTrip TruncationSafe SelfDescribing Progress InBounds InRange
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
