SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Wrong = ""
  Room = 1
INVARIANTS Allowed Complete Ends
