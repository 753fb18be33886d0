SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 WrongLaw = "none"
 Generating = TRUE
 Depth = 5
 Span = 1
