SPECIFICATION Spec
INVARIANTS NoneStale
PROPERTIES Fresh LooksOnly
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals <- SmallVals
 Params = {"gamma_0"}
 ScatVals = {"v1","v2"}
 Models = {"isotropic"}
 Bands = {"p1","p2"}
 Kinds = {}
 Generating = FALSE
 Depth = 0
 PlanesOfSurface <- MyFALSE
