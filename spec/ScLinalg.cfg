SPECIFICATION Spec
INVARIANTS LatticeSound SliceSound EiSound BlockSound
CHECK_DEADLOCK FALSE
CONSTANTS
  Fns = {"helpers"}
  Big = FALSE
