SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2, 3}
 Vals = {"0", "1", "2", "3"}
 MaxList = 2
 MaxOps = 9
 BoolOnly = FALSE
