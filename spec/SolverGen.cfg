SPECIFICATION Spec
CONSTANTS
 Calls = 4
 MaxSteps = 6
 Norms = {0, 1, 2, 3, 5, 8}
 Tols = {0, 1, 2, 3, 4, 6}
INVARIANTS Right Bound Zero
