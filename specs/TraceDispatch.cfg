SPECIFICATION Spec
CONSTANT Parent <- Tree
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
