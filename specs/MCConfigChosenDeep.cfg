SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Schemas <- ChosenSchemas
INVARIANTS RoundTrips Keeps StrictMeansAllUsed TwoObjects HooksOnce RawQuiet
CHECK_DEADLOCK FALSE
