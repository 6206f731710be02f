SPECIFICATION Spec
CONSTANTS
  Tokens = {"-f", "-fx", "--infile=a", "-m1", "--e", "--euler-u=0", "-e", "-gx", "-px", "-u", "--p=p", "-h", "--", "", "1", "-x"}
  MaxArgs = 4
  Values = {"1", "x"}
  MaxWishes = 3
INVARIANTS OnlyComplete AsWished Ignored LastCounts
PROPERTIES Ends Shrinks
CHECK_DEADLOCK FALSE
