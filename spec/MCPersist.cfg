CONSTANTS
  Delay = 100
  SaveTime = 5
SPECIFICATION Spec
INVARIANTS Complete Alone NotLocked Reached NoStorm NotAgain AllDone Clean
CHECK_DEADLOCK FALSE
