CONSTANTS Ranks = {0, 1, 2, 3}
          MaxU = 3
SPECIFICATION Spec
INVARIANTS SameOrder Agree Unique Clean
