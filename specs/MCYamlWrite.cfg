SPECIFICATION Spec
CONSTANTS
  Keys <- SomeKeys
  Texts <- SomeTexts
  MaxNodes = 4
  Configs <- SomeConfigs
INVARIANT Inv
CHECK_DEADLOCK FALSE
