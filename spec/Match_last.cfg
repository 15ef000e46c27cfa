SPECIFICATION Spec
CONSTANTS N = 3
 Fault = "last"
INVARIANTS AtMostOne FirstFits NoneOnlyIfNone Exclusive
PROPERTY Halts
CHECK_DEADLOCK FALSE
