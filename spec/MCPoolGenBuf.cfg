CONSTANTS
  Depth = 6
  Uses = {"w", "s", "W", "G", "B", "R"}
SPECIFICATION Spec
INVARIANT Out
CHECK_DEADLOCK FALSE
