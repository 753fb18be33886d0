SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots = {"B1","B2","D1","D2","C1","C2","C3","R","S","F","P"}
 Fields = {"bp","kmax","res","sp","models","bounds","data","members"}
 Vals = {"v1","v2","v3"}
 CopyOnBuild = TRUE
 CopyOnAssign = TRUE
 Generating = TRUE
 Depth = 18
