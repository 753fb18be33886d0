SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals <- GenVals
 Params = {"gamma_0","gamma_k","power"}
 ScatVals = {"v1","v2"}
 Models = {"isotropic","cos2phi","gamma_dos_func"}
 Bands = {"p1","p2"}
 Figures = {"figScatteringColor","figScatteringPhi","figOnekft","figOnevft","figCumulativevft","figdfdE","figParameters","figDiscretizeFS2D","figDiscretizeFS3D","figMultipleFS2D","omegac","fermi_probe"}
 Kinds = {"Field","Window","Count","Scat","Models","Band","Redo","Figure","Run"}
 Generating = TRUE
 Depth = 16
