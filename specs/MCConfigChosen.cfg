SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Schemas <- ChosenSchemas
INVARIANTS RoundTrips Keeps StrictMeansAllUsed TwoObjects HooksOnce RawQuiet
CHECK_DEADLOCK FALSE
