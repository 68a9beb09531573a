CONSTANTS Ranks = {0, 1, 2}
          MaxU = 3
          MaxLen = 2
SPECIFICATION Spec
INVARIANTS Right Clean
