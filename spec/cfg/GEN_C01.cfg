SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Keys = {"mu","t"}
 Undeclared = {"zz"}
 Vals = {"v0","v1","v2"}
 Scales = {"s0","s1","s2"}
 Epss = {}
 Meshes = {}
 Targets = {}
 Kinds = {"SetItem","SetParams","SetScale"}
 Generating = TRUE
 Depth = 8
