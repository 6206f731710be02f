SPECIFICATION Spec
CONSTANTS Nodes = 3
CONSTANTS Steps = 3
CONSTANTS Forces <- MoreForces
CONSTANTS Speeds <- SomeSpeeds
INVARIANTS Keeps Energy Stays Numbers
CHECK_DEADLOCK FALSE
