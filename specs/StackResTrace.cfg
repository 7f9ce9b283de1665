SPECIFICATION TSpec
CONSTANTS
  Align = 16
  Slack = 64
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
