SPECIFICATION Spec
INVARIANTS NothingForbidden Known OnePi Sound
CHECK_DEADLOCK FALSE
