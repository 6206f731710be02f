SPECIFICATION Spec
CONSTANTS
  Keys <- SomeKeys
  Texts <- SomeTexts
  MaxNodes = 6
  Configs <- SomeConfigs
INVARIANT Inv
CHECK_DEADLOCK FALSE
