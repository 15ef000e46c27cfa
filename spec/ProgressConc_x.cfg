SPECIFICATION Spec
CONSTANTS Threads = {1,2}
 Ops <- OX
 Tr <- TrB
 Fault = "none"
INVARIANTS Final Bounds
PROPERTY Returns
