SPECIFICATION Spec
CONSTANTS Ends = {2, 3, 8, 25}
CONSTANTS Big = 50
CONSTANTS Ivals = {2, 3, 7, 30}
CONSTANTS Allowed = {1, 3, 4, 12}
INVARIANTS NeverPast Limits Started Finished Whole Regular NoGap Sparse
PROPERTIES Advances Growth Ending
CHECK_DEADLOCK FALSE
