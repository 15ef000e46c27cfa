SPECIFICATION Spec
CONSTANTS Threads = {1,2}
 Ops <- OI
 Tr <- TrA
 Fault = "no_reread"
INVARIANTS Final Bounds
PROPERTY Returns
