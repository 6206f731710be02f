SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Schemas <- HookSchemas
INVARIANTS HooksOnce RawQuiet
CHECK_DEADLOCK FALSE
