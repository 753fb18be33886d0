SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Params = {"gamma_0","gamma_k","power","power_z","gamma_k_sin","power_sin","gamma_dos_max"}
 Vals = {"v1","v2"}
 Models = {"isotropic","cos2phi","cos2phi_coskz","sin2phi","gamma_dos_func"}
 Points = {"zone","far","grid","scalar_kz","again"}
 ReuseAngles = FALSE
 FoldInPlace = FALSE
 Generating = TRUE
 Depth = 14
