SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2, 3}
 Vals = {"0", "1"}
 MaxList = 3
 MaxOps = 9
 BoolOnly = TRUE
