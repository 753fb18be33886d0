SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"Bamp","energy_scale","a","c","T","tz","mu","tp","gamma_0","gamma_k","power"}
 Vals = {0,1,2}
 MaxLabels = 5
 MaxSteps = 4
 Dev = "none"
 Generating = TRUE
 Depth = 7
