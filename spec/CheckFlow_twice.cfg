SPECIFICATION Spec
CONSTANTS Fault = "twice"
INVARIANTS ThrowsIffFalse Once OneLine
PROPERTY Decides
CHECK_DEADLOCK FALSE
