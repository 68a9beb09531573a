CONSTANTS Ranks = {0, 1, 2}
          MaxU = 2
          MaxLen = 1
SPECIFICATION Spec
INVARIANTS Right Clean
PROPERTY Ends
