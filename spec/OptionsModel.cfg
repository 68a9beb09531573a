SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Vals = {"0", "1"}
 MaxList = 1
 MaxOps = 3
 BoolOnly = TRUE
PROPERTIES UserWins OrWise Copies Others
