SPECIFICATION Spec
CONSTANTS NRanks = 3
 NU = 2
INVARIANTS Same OwnerPart Full Coupling
PROPERTY Ends
