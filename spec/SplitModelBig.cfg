SPECIFICATION Spec
CONSTANTS NRanks = 3
 NU = 3
INVARIANTS Same OwnerPart Full Coupling
