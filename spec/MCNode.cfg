SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS LastWins AlarmIsOn Waiting Visible InOrder NoneLost
CONSTANT QueueMax = 3
