CONSTANTS
  BB = 8
  Acts = {"write", "raw", "grow", "back", "reset"}
  Depth = 5
  Sizes = {0, 3, 8}
  KW = {5, 13}
  KR = {5}
  MaxOut = 40
  Long = FALSE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
