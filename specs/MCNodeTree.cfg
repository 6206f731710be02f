SPECIFICATION Spec
CONSTANTS
  RootNames = {"a", "b"}
  Keys = {"x", "y"}
  Texts = {"1", "2"}
  MaxNodes = 3
CONSTRAINT Small
VIEW View
INVARIANT TypeOK
PROPERTIES Isolation CopyEqual Laws
CHECK_DEADLOCK FALSE
