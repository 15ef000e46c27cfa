SPECIFICATION Spec
CONSTANTS W = 8
 Fault = "none"
INVARIANTS Ascending All Only
CHECK_DEADLOCK FALSE
