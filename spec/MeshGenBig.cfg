CONSTANTS Ranks = {1, 2, 3}
          N = 4
          Steps = 2
          Full = FALSE
INIT GenInit
NEXT GenNext
