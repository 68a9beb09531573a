CONSTANTS
  Programs <- Small
  LockedEnd = FALSE
  Spurious = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS PrintSchedules

CONSTRAINT Short
