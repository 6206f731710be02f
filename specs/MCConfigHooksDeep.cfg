SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Schemas <- HookSchemas
INVARIANTS HooksOnce RawQuiet
CHECK_DEADLOCK FALSE
