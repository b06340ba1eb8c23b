CONSTANTS
  BB = 4
  Handles = {1, 2}
  MaxOut = 2
  MaxVals = 1
  Inputs <- MCInputs
SPECIFICATION MSpec
INVARIANTS InBounds Statuses
PROPERTIES NoEffect Independent
CHECK_DEADLOCK FALSE
