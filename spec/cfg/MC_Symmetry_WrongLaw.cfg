SPECIFICATION Spec
INVARIANTS LawFollowsSettings AngleUnchanged
CHECK_DEADLOCK FALSE
CONSTANTS
 WrongLaw = "LatticeField"
 Generating = FALSE
 Depth = 0
 Span = 1
