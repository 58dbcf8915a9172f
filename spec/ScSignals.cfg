SPECIFICATION Spec
INVARIANTS Superposition ChannelsAddUp TimeInvariant PulseIsStepDifference
CHECK_DEADLOCK FALSE
CONSTANTS
  Fns = {"freq"}
  Big = FALSE
