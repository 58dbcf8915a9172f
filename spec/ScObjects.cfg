SPECIFICATION Spec
INVARIANTS DtFollows Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shapes = {}
  Dts = {}
  Depth = 1
