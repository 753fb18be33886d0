SPECIFICATION Spec
INVARIANTS NormalisedAtNorm AbsoluteIsScaled AtMeasuredAngles RowOrderIrrelevant
CHECK_DEADLOCK FALSE
CONSTANTS
 Angles = {0,1,3,4}
 Values = {1,2,5}
 Norms = {0,2,3,5}
 Scales = {1,3}
 Dev = "FirstRow"
