CONSTANTS
  BB = 8
  Every = 1
  Depth = 6
  Handles = {1}
  Slots = {1, 2}
  EKs = {5}
  DKs = {5, 4}
  Nulls = FALSE
  MaxOut = 20
SPECIFICATION Spec
INVARIANT OutFull
CHECK_DEADLOCK FALSE
