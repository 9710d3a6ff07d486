SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Wrong = ""
INVARIANTS Agrees EachByteOnce Split Strict
