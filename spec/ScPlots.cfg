SPECIFICATION Spec
INVARIANTS EachChannelOnce RoomForAll DrawnOver
CHECK_DEADLOCK FALSE
CONSTANTS
  Fns = {"plot"}
  Big = FALSE
