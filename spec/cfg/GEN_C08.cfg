SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals <- FieldVals
 Params = {"gamma_0","gamma_k","power"}
 ScatVals = {"v1","v2"}
 Models = {"isotropic","cos2phi","gamma_dos_func"}
 Bands = {"p1","p2"}
 Figures = {}
 Kinds = {"Field","Count","Assign","Scat","Models","Band","Run"}
 Generating = TRUE
 Depth = 14
