SPECIFICATION Spec
CONSTANTS
  Laws <- MoreLaws
  Speeds <- SomeSpeeds
  Steps = 6
INVARIANTS Wear Spring Slackens Shut Against__ AtMost
CHECK_DEADLOCK FALSE
