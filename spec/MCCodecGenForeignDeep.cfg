CONSTANTS
  BB = 8
  Acts = {"foreign", "read", "wrong"}
  Depth = 4
  Sizes = {}
  KW = {5}
  KR = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  MaxOut = 40
  Long = FALSE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
