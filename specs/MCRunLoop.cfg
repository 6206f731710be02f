SPECIFICATION Spec
CONSTANTS Ends = {3, 22}
CONSTANTS Big = 50
CONSTANTS Ivals = {2, 7, 30}
CONSTANTS Allowed = {1, 4, 12}
INVARIANTS NeverPast Limits Started Finished Whole Regular NoGap Sparse
PROPERTIES Advances Growth Ending
CHECK_DEADLOCK FALSE
