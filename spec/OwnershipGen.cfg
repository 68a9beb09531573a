CONSTANTS NM = 2
          NV = 3
          Depth = 14
SPECIFICATION Spec
