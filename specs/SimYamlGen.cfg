SPECIFICATION Spec
CONSTANTS
  MaxEntries = 5
  MaxDepth = 4
  Keys <- AllKeys
  Words <- AllWords
  Cited <- AllCited
  Styles <- AllStyles
  Steps = {1, 2, 4}
  Noise <- AllNoise
  Tails <- AllTails
  Wraps <- AllWraps
  Gaps <- AllGaps
  Pick <- One
INVARIANTS AgreeOne PrintLast
CHECK_DEADLOCK FALSE
