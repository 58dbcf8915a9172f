SPECIFICATION Spec
INVARIANTS SameMeaning LeadingZeros Broadcast
CHECK_DEADLOCK FALSE
CONSTANTS
  Big = FALSE
