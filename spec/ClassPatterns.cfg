CONSTANTS Ranks = {1, 2, 3}
          N = 3
SPECIFICATION Spec
