CONSTANTS
  Programs <- Small
  LockedEnd = TRUE
  Spurious = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS PrintSchedules

CONSTRAINT Short
