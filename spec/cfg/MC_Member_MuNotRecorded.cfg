SPECIFICATION Spec
INVARIANTS SimulatesCandidate RecordIsSimulated FileIsRecord
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"Bamp","energy_scale","tz","mu","gamma_0"}
 Vals = {0,1}
 MaxLabels = 2
 MaxSteps = 4
 Dev = "MuNotRecorded"
 Generating = FALSE
 Depth = 0
