SPECIFICATION Spec
CONSTANTS
  Tokens = {"-f", "-fx", "--infile", "--infile=a", "--in", "-m", "-m1", "--micro-filetype=1", "--e", "--euler-", "--euler-u=0", "-e", "-g", "-p", "-u", "-u1", "--feature-ids=g", "--p=p", "-h", "--he", "--help=1", "--", "-", "", "x", "1", "-x", "--other", "-fm", "--=", "-:", "-u-1"}
  MaxArgs = 3
  Values = {"1", "-1", "x"}
  MaxWishes = 2
INVARIANTS OnlyComplete AsWished Ignored LastCounts
PROPERTIES Ends Shrinks
CHECK_DEADLOCK FALSE
