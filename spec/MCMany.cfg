CONSTANTS
  BB = 4
  Users = {1, 2}
  Most = 2
  Shared = FALSE
SPECIFICATION ZSpec
INVARIANTS Round
PROPERTIES Separate Alone
CHECK_DEADLOCK FALSE
