SPECIFICATION Spec
CONSTANTS N = 3
 Fault = "none"
INVARIANTS AtMostOne FirstFits NoneOnlyIfNone Exclusive
PROPERTY Halts
CHECK_DEADLOCK FALSE
