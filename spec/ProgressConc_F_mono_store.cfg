SPECIFICATION Spec
CONSTANTS Threads = {1,2}
 Ops <- OM
 Tr <- TrA
 Fault = "mono_store"
INVARIANTS Final Bounds
PROPERTY Returns
