SPECIFICATION Spec
CONSTANTS W = 1
 Batches <- B13
 Nest <- NX
 Fault = "none"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
