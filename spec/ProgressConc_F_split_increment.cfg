SPECIFICATION Spec
CONSTANTS Threads = {1,2}
 Ops <- OI
 Tr <- TrA
 Fault = "split_increment"
INVARIANTS Final Bounds
PROPERTY Returns
