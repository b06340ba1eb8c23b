CONSTANTS
  BB = 8
  Acts = {"write", "reset", "hand", "foreign", "read", "wrong", "clobber", "scribble"}
  Depth = 50
  Sizes = {0, 7}
  KW = {4, 5, 6, 10}
  KR = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  MaxOut = 600
  Long = TRUE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
