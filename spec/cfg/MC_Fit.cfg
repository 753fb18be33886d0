SPECIFICATION Spec
INVARIANTS SimulatedIsCandidate SameCandidateSameResult NothingElseMoves ExportIsBest
CHECK_DEADLOCK FALSE
CONSTANTS
 Temps = {"t1","t2"}
 Bands = {"b1"}
 Names = {"Bamp","tz","gamma_0"}
 Vals = {0,1}
 Workers = {1,2}
 MaxEvals = 2
 MaxLabels = 2
 Dev = "none"
 Generating = FALSE
 Depth = 0
