SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Second = 8
  Slack = 0
  Wrong = ""
INVARIANTS OneUnanswered WrittenOnce AllWritten UpWritten OwnBytes OneOpen ConnectedOnlyUp Tells Cadence FirstIsLast Reopens Timely
PROPERTIES Allowed
