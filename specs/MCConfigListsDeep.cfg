SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Schemas <- ListSchemas
INVARIANTS RoundTrips Keeps StrictMeansAllUsed RawQuiet
CHECK_DEADLOCK FALSE
