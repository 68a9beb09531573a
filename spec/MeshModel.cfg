CONSTANTS Ranks = {1, 2, 3}
          N = 3
          Steps = 2
          Full = TRUE
INIT Init
NEXT Next
INVARIANT Inv
