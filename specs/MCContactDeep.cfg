SPECIFICATION Spec
CONSTANTS
  Offsets <- MoreOffsets
  Speeds <- MoreSpeeds
  Heights <- MoreHeights
  Masses <- MoreMasses
  Sweeps = 60
  Part = 5
INVARIANTS Balance Turning NoPull Against_ Settled Apart_
CHECK_DEADLOCK FALSE
