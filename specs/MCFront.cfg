SPECIFICATION Spec
CONSTANTS
  Wide = 3
  High = 2
  Values <- Few
  Speeds <- SomeSpeeds
  Steps = 2
INVARIANTS Plane Odd Mirrored Anywhere Flat Roots
CHECK_DEADLOCK FALSE
