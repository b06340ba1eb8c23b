CONSTANTS
  BB = 4
  Users = {1, 2}
  Most = 1
  Shared = TRUE
SPECIFICATION ZSpec
INVARIANTS Round
CHECK_DEADLOCK FALSE
