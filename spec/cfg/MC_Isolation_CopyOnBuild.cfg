SPECIFICATION Spec
INVARIANT ReadsOwnValue
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots = {"B1","D1","C1","S"}
 Fields = {"bp","sp"}
 Vals = {"v1","v2"}
 CopyOnBuild <- MyFALSE
 CopyOnAssign = TRUE
 Generating = FALSE
 Depth = 0
