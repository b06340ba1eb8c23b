CONSTANTS
  BB = 8
  Every = 1
  Depth = 5
  Handles = {1}
  Slots = {1, 2}
  EKs = {5}
  DKs = {4, 5, 8}
  Nulls = FALSE
  MaxOut = 20
SPECIFICATION Spec
INVARIANT OutFull
CHECK_DEADLOCK FALSE
