SPECIFICATION Spec
CONSTANTS Threads = {1,2,3}
 Ops <- OM
 Tr <- TrB
 Fault = "none"
INVARIANTS Final Bounds
PROPERTY Returns
