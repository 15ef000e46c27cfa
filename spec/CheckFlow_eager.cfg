SPECIFICATION Spec
CONSTANTS Fault = "eager"
INVARIANTS ThrowsIffFalse Once OneLine
PROPERTY Decides
CHECK_DEADLOCK FALSE
