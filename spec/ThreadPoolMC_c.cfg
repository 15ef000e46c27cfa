SPECIFICATION Spec
CONSTANTS W = 2
 Batches <- B0
 Nest <- N0
 Fault = "none"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
