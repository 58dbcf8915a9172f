SPECIFICATION Spec
INVARIANTS ContinuousDescribed DiscreteDescribed
CHECK_DEADLOCK FALSE
CONSTANTS
  Fns = {"props"}
  Big = FALSE
