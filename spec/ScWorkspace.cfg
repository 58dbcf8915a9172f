SPECIFICATION Spec
INVARIANTS TypeOK OneSlot OneTimeBase MixRefused StateAbsorbs Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shapes = {}
