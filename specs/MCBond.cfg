SPECIFICATION Spec
CONSTANTS
  Laws <- SomeLaws
  Speeds <- SomeSpeeds
  Steps = 5
INVARIANTS Wear Spring Slackens Shut Against__ AtMost
CHECK_DEADLOCK FALSE
