SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Schemas <- AllSchemas
INVARIANTS Keeps TwoObjects RawQuiet
CHECK_DEADLOCK FALSE
