SPECIFICATION TraceSpec
INVARIANT Report
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  St0 <- MySt0
  StepOf <- MyStep
  ChecksOf <- MyChecks
  CubeTol = "0.04"
  PlaneTol = "0.006"
  StatesTol = "0.1"
  CoarseTol = "0.33"
