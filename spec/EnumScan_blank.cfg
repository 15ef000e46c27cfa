SPECIFICATION Spec
CONSTANTS Names <- MCNames
 Seps <- MCSeps
 N = 3
 Fault = "blank"
INVARIANTS Right InText
PROPERTY Halts
CHECK_DEADLOCK FALSE
