SPECIFICATION Spec
INVARIANTS TypeOK StateWins OneTimeBase AddSym Total
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"add"}
  Shapes = {<<1,1>>, <<1,2>>}
  Dts = {"null"}
  ArrShapes1 = {1}
  ArrShapes2 = {<<1,1>>}
  Mixed = TRUE
  Flavours = {"zero"}
