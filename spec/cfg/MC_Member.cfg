SPECIFICATION Spec
INVARIANTS SimulatesCandidate RecordIsSimulated FileIsRecord
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"Bamp","energy_scale","tz","mu","gamma_0"}
 Vals = {0,1}
 MaxLabels = 3
 MaxSteps = 5
 Dev = "none"
 Generating = FALSE
 Depth = 0
