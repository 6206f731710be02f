SPECIFICATION SimSpec
CONSTANTS Depth = 1000
CONSTANTS Emit = TRUE
INVARIANTS TypeOK NoUnknown AsWritten
CHECK_DEADLOCK FALSE
