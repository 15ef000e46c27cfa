SPECIFICATION Spec
CONSTANTS Threads = {1,2,3}
 Ops <- OI
 Tr <- TrA
 Fault = "none"
INVARIANTS Final Bounds
PROPERTY Returns
