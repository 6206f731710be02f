SPECIFICATION Spec
INVARIANTS Between FilesOk NamesOk
CHECK_DEADLOCK FALSE
