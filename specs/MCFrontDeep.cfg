SPECIFICATION Spec
CONSTANTS
  Wide = 3
  High = 2
  Values <- More
  Speeds <- MoreSpeeds
  Steps = 3
INVARIANTS Plane Odd Mirrored Anywhere Flat Roots
CHECK_DEADLOCK FALSE
