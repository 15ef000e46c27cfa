SPECIFICATION Spec
CONSTANTS W = 8
 Fault = "top"
INVARIANTS Ascending All Only
CHECK_DEADLOCK FALSE
