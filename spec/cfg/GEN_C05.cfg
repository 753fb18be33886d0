SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Keys = {"mu","t"}
 Undeclared = {"zz"}
 Vals = {"v1","v2"}
 Scales = {"s1","s2"}
 Epss = {"e0","e1"}
 Meshes = {"m1"}
 Targets = {"p1","p2"}
 Kinds = {"SetItem","SetParams","SetScale","SetMarch","Discretize","RunBand","Fill","Dos","Mass","SetMu"}
 Generating = TRUE
 Depth = 12
