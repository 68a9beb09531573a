CONSTANTS
  Programs <- Large
  LockedEnd = FALSE
  Spurious = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS AtMostOnce DoneWhenReturned
PROPERTIES Ends
CHECK_DEADLOCK TRUE
