SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Schemas <- AllSchemas
INVARIANTS Keeps TwoObjects RawQuiet
CHECK_DEADLOCK FALSE
