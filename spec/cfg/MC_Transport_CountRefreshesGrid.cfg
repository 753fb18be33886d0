SPECIFICATION Spec
INVARIANTS FieldCurrent GridCurrent WindowCurrent EndsAtFermi RunIsFresh RunTwice
PROPERTIES OnlyRunsChangeResults
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals <- SmallVals
 Params = {"gamma_0"}
 ScatVals = {"v1","v2"}
 Models = {"isotropic"}
 Bands = {"p1","p2"}
 Figures = {"f"}
 Kinds = {}
 Generating = FALSE
 Depth = 0
 CountRefreshesGrid <- MyFALSE
