SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Schemas <- AllSchemas
INVARIANTS RoundTrips
CHECK_DEADLOCK FALSE
