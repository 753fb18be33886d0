SPECIFICATION TraceSpec
INVARIANT Report
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  St0 <- MySt0
  StepOf <- MyStep
  ChecksOf <- MyChecks
  CrossTol = "0.03"
