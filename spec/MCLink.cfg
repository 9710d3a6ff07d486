SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Second = 8
  Slack = 0
  Lazy = 1
INVARIANTS OneUnanswered WrittenAgain InOrder Outcome RightAnswer FirstGets Unanswered AllDone Acks
PROPERTIES OutcomeStays
