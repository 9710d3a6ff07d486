SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Second = 1000000
  Slack = 30000
