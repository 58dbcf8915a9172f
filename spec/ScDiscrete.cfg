SPECIFICATION Spec
INVARIANTS BothWays DcToDc Stability Warp HoldLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  Fns = {"disc"}
  Shapes = {<<1,1>>}
  Dts = {"dt1"}
  Depth = 1
  Rich = FALSE
