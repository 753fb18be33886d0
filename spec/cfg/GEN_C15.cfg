SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Temps = {"t1","t2","t3"}
 Bands = {"b1","b2"}
 Names = {"Bamp","energy_scale","a","c","T","tz","mu","tp","gamma_0","gamma_k","power"}
 Vals = {0,1,2}
 Workers = {1,2}
 MaxEvals = 2
 MaxLabels = 5
 Dev = "none"
 Generating = TRUE
 Depth = 7
