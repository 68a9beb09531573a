CONSTANTS Ranks = {1, 2, 3}
          N = 4
          Steps = 2
          Full = FALSE
INIT Init
NEXT Next
INVARIANT Inv
