SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Schemas <- AllSchemas
INVARIANTS StrictMeansAllUsed
CHECK_DEADLOCK FALSE
