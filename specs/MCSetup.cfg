SPECIFICATION Spec
CONSTANTS Regions = 2
CONSTANTS Max = 2
INVARIANTS Bins OneBinPerMaterial AllAtOnce Geometry
PROPERTIES Outside
CHECK_DEADLOCK FALSE
