SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Wrong = ""
INVARIANTS Allowed AllThere NoneTwice
