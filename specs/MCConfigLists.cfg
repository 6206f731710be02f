SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Schemas <- ListSchemas
INVARIANTS RoundTrips Keeps StrictMeansAllUsed RawQuiet
CHECK_DEADLOCK FALSE
