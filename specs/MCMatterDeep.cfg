SPECIFICATION Spec
CONSTANTS
  Rates <- MoreRates
  Steps = 6
  Shear = 6
  Yield = 393216
INVARIANTS Symmetric NoPressure Within Turning Swelling Shearing Once Works Shares
CHECK_DEADLOCK FALSE
