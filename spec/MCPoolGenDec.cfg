CONSTANTS
  Depth = 6
  Uses = {"d", "x", "j"}
SPECIFICATION Spec
INVARIANT Out
CHECK_DEADLOCK FALSE
