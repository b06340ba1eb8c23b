CONSTANTS
  BB = 8
  Acts = {"write", "hand", "read", "clobber", "scribble"}
  Depth = 6
  Sizes = {}
  KW = {4, 5, 6}
  KR = {5}
  MaxOut = 40
  Long = FALSE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
