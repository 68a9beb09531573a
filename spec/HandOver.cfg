CONSTANTS
  Programs <- Large
  LockedEnd = TRUE
  Spurious = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOnce DoneWhenReturned
PROPERTIES Ends
CHECK_DEADLOCK TRUE
