SPECIFICATION Spec
CONSTANTS NT = 2
 MaxTime = 2
 MaxOps = 3
 Fault = "wall"
INVARIANTS OneStart Elapsed NeverBack ScopedDone
PROPERTY GoneSaid
CHECK_DEADLOCK FALSE
