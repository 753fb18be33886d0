SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals <- GenVals
 Params = {"gamma_0","gamma_k","power"}
 ScatVals = {"v1","v2"}
 Models = {"isotropic","cos2phi","gamma_dos_func"}
 Bands = {"p1","p2"}
 Kinds = {"Field","Window","Scat","Models","Band","March","Planes","Redo","Run","Dos","Mass","Omega"}
 Generating = TRUE
 Depth = 16
