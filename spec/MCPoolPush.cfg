CONSTANTS
  Takers = {1, 2, 3}
  Objects = {1, 2, 3}
  MaxLen = 2
  Order = "push-clear"
SPECIFICATION Spec
INVARIANTS Exclusive FreeUnheld
PROPERTIES OnlyHolder Refines
CHECK_DEADLOCK FALSE
