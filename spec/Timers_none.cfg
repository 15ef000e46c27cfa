SPECIFICATION Spec
CONSTANTS NT = 2
 MaxTime = 2
 MaxOps = 4
 Fault = "none"
INVARIANTS OneStart Elapsed NeverBack ScopedDone
PROPERTY GoneSaid
CHECK_DEADLOCK FALSE
