SPECIFICATION Spec
CONSTANTS Depth = 1
CONSTANTS Emit = TRUE
INVARIANTS TypeOK NoUnknown AsWritten
PROPERTIES Local
CHECK_DEADLOCK FALSE
