CONSTANTS Ranks = {0, 1, 2, 3}
          MaxU = 2
SPECIFICATION Spec
INVARIANTS Determined Conserved Clean
