SPECIFICATION Spec
INVARIANT Bracket
INVARIANT Shared
INVARIANT Crosses
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
 Bands = {"b1","b2"}
 Levels <- LevelSet
 MaxMu = 4
