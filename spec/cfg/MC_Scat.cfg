SPECIFICATION Spec
INVARIANTS RatesAreFresh InputsUntouched LastSetWins
CHECK_DEADLOCK FALSE
CONSTANTS
 Params = {"gamma_0","gamma_k","power"}
 Vals = {"v1","v2"}
 Models = {"isotropic","cos2phi"}
 Points = {"x","y"}
 ReuseAngles = FALSE
 FoldInPlace = FALSE
 Generating = FALSE
 Depth = 0
