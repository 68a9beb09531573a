SPECIFICATION Spec
CONSTANTS
 Calls = 1
 MaxSteps = 3
 Norms = {0, 1, 2, 4}
 Tols = {0, 1, 2, 4, 6}
INVARIANTS Right Bound Zero
PROPERTY Ends
