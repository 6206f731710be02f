SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Schemas <- AllSchemas
INVARIANTS RoundTrips
CHECK_DEADLOCK FALSE
