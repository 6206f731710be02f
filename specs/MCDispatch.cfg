SPECIFICATION Spec
CONSTANTS
  Parent <- Tree
  Max = 4
INVARIANTS AtMostOnce AsMeant
PROPERTY Ends
CHECK_DEADLOCK FALSE
