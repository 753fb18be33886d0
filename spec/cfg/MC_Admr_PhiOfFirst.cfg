SPECIFICATION Spec
INVARIANTS EveryEntryIsTotal TotalIsOfThisScan OnePerAngle
CHECK_DEADLOCK FALSE
CONSTANTS
 NBands = 2
 Vals = {"v1","v2"}
 Phis = {1,2}
 Thetas = {1,2}
 Norms = {0,1}
 Looks = {"export"}
 MaxAngles = 2
 Dev = "PhiOfFirst"
 Generating = FALSE
 Depth = 0
