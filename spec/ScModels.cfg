SPECIFICATION Spec
INVARIANTS IndexSound LoopTyped
CHECK_DEADLOCK FALSE
CONSTANTS
  Fns = {"conv"}
  Shapes = {<<1,1>>, <<1,2>>}
  Dts = {"null"}
