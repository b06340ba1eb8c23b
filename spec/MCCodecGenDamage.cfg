CONSTANTS
  BB = 8
  Acts = {"write", "cut", "flip", "read", "wrong"}
  Depth = 4
  Sizes = {}
  KW = {2, 6, 9}
  KR = {5, 9}
  MaxOut = 30
  Long = FALSE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
