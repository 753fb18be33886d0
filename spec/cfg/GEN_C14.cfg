SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 NBands = 3
 Vals = {"field","rates","models","doping","band","T","mesh"}
 Phis = {0,1,2,3,4}
 Thetas = {0,1,2,3,4,5}
 Norms = {0,1,2,3}
 Looks = {"export","figure","name","totals","parameters"}
 MaxAngles = 4
 Dev = "none"
 Generating = TRUE
 Depth = 7
