SPECIFICATION Spec
INVARIANT NoStale
INVARIANT PlanesOfSurface
INVARIANT UnknownKeyChangesNothing
INVARIANT RecomputeIsFresh
PROPERTY SettingsOnlyBySetters
CHECK_DEADLOCK FALSE
CONSTANTS
 SwitchDropsPlanes <- MyFALSE
 Keys = {"mu","t"}
 Undeclared = {"zz"}
 Vals = {"v1","v2"}
 Scales = {"s1","s2"}
 Epss = {"e0","e1"}
 Meshes = {"m1"}
 Targets = {"p1"}
 Kinds = {"SetItem","SetParams","SetScale","SetMarch","Discretize","RunBand","Fill","Dos","Mass","SetMu"}
 Generating = FALSE
 Depth = 0
