CONSTANTS
  BB = 8
  Acts = {"write", "reset", "hand", "read", "wrong"}
  Depth = 5
  Sizes = {}
  KW = {5, 8, 12}
  KR = {1, 5, 10}
  MaxOut = 40
  Long = FALSE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
