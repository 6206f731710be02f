SPECIFICATION Spec
CONSTANTS
  Max = 3
  Names = {"a", "b"}
INVARIANTS HoldsFields CellsFit
CHECK_DEADLOCK FALSE
