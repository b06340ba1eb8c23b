CONSTANTS
  BB = 8
  Acts = {"write", "cut", "flip", "read", "wrong"}
  Depth = 4
  Sizes = {}
  KW = {1, 2, 4, 5, 6, 9, 12, 14}
  KR = {4, 5, 9, 10}
  MaxOut = 40
  Long = FALSE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
