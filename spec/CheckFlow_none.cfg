SPECIFICATION Spec
CONSTANTS Fault = "none"
INVARIANTS ThrowsIffFalse Once OneLine
PROPERTY Decides
CHECK_DEADLOCK FALSE
