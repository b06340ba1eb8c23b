CONSTANTS
  BB = 8
  Acts = {"write", "raw", "grow", "back", "reset"}
  Depth = 50
  Sizes = {0, 1, 3, 7, 64}
  KW = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  KR = {5}
  MaxOut = 400
  Long = TRUE
SPECIFICATION GSpec
INVARIANT Out
CHECK_DEADLOCK FALSE
