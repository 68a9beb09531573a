CONSTANTS Ranks = {1, 2, 3, 4}
          N = 3
SPECIFICATION Spec
