CONSTANTS
  BB = 4
  Users = {1, 2, 3}
  Most = 1
  Shared = FALSE
SPECIFICATION ZSpec
INVARIANTS Round
PROPERTIES Separate Alone
CHECK_DEADLOCK FALSE
