CONSTANTS
  BB = 8
  Every = 4
  Depth = 60
  Handles = {1, 2, 3}
  Slots = {1, 2, 3, 4}
  EKs = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  DKs = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  Nulls = TRUE
  MaxOut = 200
SPECIFICATION Spec
INVARIANT Out
CHECK_DEADLOCK FALSE
