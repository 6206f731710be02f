SPECIFICATION Spec
CONSTANTS
  MaxEntries = 2
  MaxDepth = 2
  Keys <- SmallKeys
  Words <- SmallWords
  Cited <- SmallCited
  Styles <- MidStyles
  Steps = {1, 2}
  Noise <- SmallNoise
  Tails <- MidTails
  Wraps <- SmallWraps
  Gaps = {""}
  Pick <- All
INVARIANTS Agree PrintAll
CHECK_DEADLOCK FALSE
