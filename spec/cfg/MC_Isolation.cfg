SPECIFICATION Spec
INVARIANTS ReadsOwnValue NothingShared DefaultsConstant
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots = {"B1","D1","C1","S"}
 Fields = {"bp","sp"}
 Vals = {"v1","v2"}
 CopyOnBuild = TRUE
 CopyOnAssign = TRUE
 Generating = FALSE
 Depth = 0
