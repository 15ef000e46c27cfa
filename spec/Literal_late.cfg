SPECIFICATION Spec
CONSTANTS Cap = 4
 Chars = {1, 2, 3}
 Fault = "late"
INVARIANTS Inside Result Distinct
CHECK_DEADLOCK FALSE
