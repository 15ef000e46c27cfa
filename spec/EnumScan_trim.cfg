SPECIFICATION Spec
CONSTANTS Names <- MCNames
 Seps <- MCSeps
 N = 3
 Fault = "trim"
INVARIANTS Right InText
PROPERTY Halts
CHECK_DEADLOCK FALSE
