SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals <- ThermalVals
 Params = {"gamma_0","gamma_k","power"}
 ScatVals = {"v1","v2"}
 Models = {"isotropic","cos2phi","gamma_dos_func"}
 Bands = {"p1","p2"}
 Figures = {}
 Kinds = {"Field","Window","Count","Scat","Band","Run"}
 Generating = TRUE
 Depth = 12
