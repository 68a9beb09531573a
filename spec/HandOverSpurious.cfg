CONSTANTS
  Programs <- Large
  LockedEnd = TRUE
  Spurious = TRUE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOnce DoneWhenReturned
PROPERTIES Ends
CHECK_DEADLOCK TRUE
