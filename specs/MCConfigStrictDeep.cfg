SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Schemas <- AllSchemas
INVARIANTS StrictMeansAllUsed
CHECK_DEADLOCK FALSE
