CONSTANTS Ranks = {0, 1, 2}
          MaxU = 2
SPECIFICATION Spec
INVARIANTS Determined Conserved Clean
PROPERTY Ends
