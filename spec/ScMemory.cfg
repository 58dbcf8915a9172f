SPECIFICATION Spec
INVARIANTS Separate Disjoint
CHECK_DEADLOCK FALSE
CONSTANTS
  Sharing = FALSE
