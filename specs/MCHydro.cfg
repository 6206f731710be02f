SPECIFICATION Spec
CONSTANTS Nodes = 3
CONSTANTS Steps = 2
CONSTANTS Forces <- SomeForces
CONSTANTS Speeds <- SomeSpeeds
INVARIANTS Keeps Energy Stays Numbers
CHECK_DEADLOCK FALSE
