SPECIFICATION Spec
CONSTANTS
  Offsets <- SomeOffsets
  Speeds <- SomeSpeeds
  Heights <- SomeHeights
  Masses <- SomeMasses
  Sweeps = 30
  Part = 2
INVARIANTS Balance Turning NoPull Against_ Settled Apart_
CHECK_DEADLOCK FALSE
