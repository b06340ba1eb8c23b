CONSTANTS
  BB = 8
  Acts = {"write", "reset", "hand", "cut", "flip", "foreign", "read", "wrong"}
  Depth = 60
  Sizes = {0, 1, 7, 64}
  KW = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  KR = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  MaxOut = 600
  Long = TRUE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
