SPECIFICATION Spec
CONSTANTS
  MaxEntries = 2
  MaxDepth = 2
  Keys <- SmallKeys
  Words <- SmallWords
  Cited <- SmallCited
  Styles <- SmallStyles
  Steps = {2}
  Noise <- SmallNoise
  Tails <- SmallTails
  Wraps <- SmallWraps
  Gaps = {""}
  Pick <- All
INVARIANTS Rejects
CHECK_DEADLOCK FALSE
